From 01bd22214135465c3639bf46d64f0f86cabcfe7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 1/9] fix: cast generated discriminants to the configured
 discriminant type

tagged_box! cast variant indices to u8, so it did not compile at the 48-55 bit
widths, whose discriminant type is u16.
---
 src/tagged_box_macro/meta_macros.rs | 68 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 38 ++++++++--------
 2 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 47596bb..43250ae 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as u8)
+                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 8e72f1e..1fe802c 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as u8)
+                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as u8),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
             ]
             $( $rest )*
         )
@@ -184,7 +184,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($ty:ty), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Inline variables
                 // if $crate::__generate_const_sizes!($ty) <= $crate::discriminant::DISCRIMINANT_BITS as usize {
                 //     todo!("Store small variables directly in the pointer")
@@ -199,7 +199,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident($($ty:ty),*), $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 #[allow(dead_code)]
                 #[repr(C)]
                 struct $variant($( $ty ),*);
@@ -218,7 +218,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty),* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -232,7 +232,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident { $($ident:ident: $ty:ty,)* }, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => {
+            discrim if discrim == $counter::$variant as $crate::Discriminant => {
                 // TODO: Miniscule pointer storage can be preformed here too
                 #[repr(C)]
                 struct $variant {
@@ -247,7 +247,7 @@ macro_rules! __boxed_into_inner {
     (@inner $tagged:expr, $enum:ident, $counter:ident, [$($tt:tt)*] $variant:ident, $($rest:tt)*) => {
         $crate::__boxed_into_inner!(@inner $tagged, $enum, $counter, [
             $( $tt )*
-            discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+            discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
         ] $( $rest )*);
     };
 
@@ -280,7 +280,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $enum::$variant($crate::TaggedBox::<$enum>::into_inner::<$ty>($tagged))
                 },
             ] $($rest)*
@@ -296,7 +296,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
@@ -312,7 +312,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -332,7 +332,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -353,7 +353,7 @@ macro_rules! __from_tagged_box {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => $enum::$variant,
+                discrim if discrim == $counter::$variant as $crate::Discriminant => $enum::$variant,
             ] $($rest)*
         )
     };
@@ -393,7 +393,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $($tt)*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant($tagged.as_ptr::<$ty>().read()));
                     ($callback)(&variant);
                 }
@@ -411,7 +411,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant($( $ty ),*);
 
@@ -440,7 +440,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -463,7 +463,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     #[repr(C)]
                     struct $variant {
                         $( $ident: $ty ),*
@@ -487,7 +487,7 @@ macro_rules! __ref_from_tagged {
             $total_variants,
             [
                 $( $tt )*
-                discrim if discrim == $counter::$variant as u8 => {
+                discrim if discrim == $counter::$variant as $crate::Discriminant => {
                     let variant: $enum = $enum::$variant;
                     ($callback)(&variant);
                 }
-- 
2.43.0


From 027a3ee286938c3e6eb69ed687c97cb552b22305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 2/9] fix: 52bits width holds 12-bit discriminants up to 4095,
 not 4068

---
 src/discriminant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index b0a42be..a9153dc 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -80,7 +80,7 @@ generate_discriminants! {
     [tagged_box_reserve_55bits, u16, 511,   55, 9 ],
     [tagged_box_reserve_54bits, u16, 1023,  54, 10],
     [tagged_box_reserve_53bits, u16, 2047,  53, 11],
-    [tagged_box_reserve_52bits, u16, 4068,  52, 12],
+    [tagged_box_reserve_52bits, u16, 4095,  52, 12],
     [tagged_box_reserve_51bits, u16, 8191,  51, 13],
     [tagged_box_reserve_50bits, u16, 16383, 50, 14],
     [tagged_box_reserve_49bits, u16, 32767, 49, 15],
-- 
2.43.0


From e36b7990f1e1e7e472919df5dff26394a0bc0f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 3/9] fix: from_tagged_box reads tuple variants with the layout
 they were stored in

Tuple variants are stored as a repr(C) struct but were read back as a Rust tuple,
whose field order is unspecified, yielding garbage for e.g. (u8, u32, u8).
---
 src/tagged_box_macro/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 1fe802c..96f2cd1 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -297,7 +297,12 @@ macro_rules! __from_tagged_box {
             [
                 $($tt)*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<($( $ty ),*)>($tagged), $( $ty ),*)
+                    // Must be the same layout that `into_tagged_box` stored
+                    #[allow(dead_code)]
+                    #[repr(C)]
+                    struct $variant($( $ty ),*);
+
+                    $crate::__expand_tuple!($enum::$variant, $crate::TaggedBox::<$enum>::into_inner::<$variant>($tagged), $( $ty ),*)
                 },
             ] $($rest)*
         )
-- 
2.43.0


From a5fe58e212caf36a5e6bd8148725782fe0ef7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 4/9] fix: do not drop a zero-sized value while boxing it

The value was dropped on creation and again when taken out with into_inner.
---
 src/tagged_box.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 730a83e..3c8a3ef 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -81,7 +81,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The box now owns the value, so it must not be dropped here
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
@@ -174,7 +178,11 @@ impl<T> TaggedBox<T> {
     #[inline]
     pub unsafe fn new_unchecked<U>(val: U, discriminant: Discriminant) -> Self {
         if mem::size_of::<U>() == 0 {
-            Self::dangling::<U>(discriminant)
+            let tagged = Self::dangling::<U>(discriminant);
+            // The box now owns the value, so it must not be dropped here
+            mem::forget(val);
+
+            tagged
         } else {
             let layout = Layout::new::<U>();
 
-- 
2.43.0


From 76115f5620e75906868b7648282f56314286de73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 5/9] fix: refuse oversized discriminants and pointers in
 optimised builds and when dangling

TaggedPointer::new documents a panic but only checked with debug_assert, and
dangling (used for zero-sized values) never checked, so an oversized discriminant
was silently truncated to another variant's.
---
 src/tagged_pointer.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/tagged_pointer.rs b/src/tagged_pointer.rs
index c4eb53b..630d411 100644
--- a/src/tagged_pointer.rs
+++ b/src/tagged_pointer.rs
@@ -27,13 +27,13 @@ impl TaggedPointer {
     #[inline]
     #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new(ptr: u64, discriminant: Discriminant) -> Self {
-        debug_assert!(
+        assert!(
             discriminant <= MAX_DISCRIMINANT,
             "Attempted to store a discriminant of {} while the max value is {}",
             discriminant,
             MAX_DISCRIMINANT,
         );
-        debug_assert!(
+        assert!(
             ptr <= MAX_POINTER_VALUE,
             "If you are receiving this error, then your hardware uses more than {} bits of a pointer to store addresses. \
             It is recommended that you use a different feature for the `tagged-box` crate using `features = [\"{}bits\"]` or above.
@@ -48,7 +48,13 @@ impl TaggedPointer {
     }
 
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub const fn dangling<T: Sized>(discriminant: Discriminant) -> Self {
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant that is larger than the max value",
+        );
+
         Self {
             tagged_ptr: Self::store_discriminant(core::mem::align_of::<T>() as u64, discriminant),
         }
-- 
2.43.0


From 315232009c8666c0d6f6a2544be8bc5ba43bd8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 6/9] fix: do not leak the value and its block when a
 discriminant is refused

---
 src/tagged_box.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 3c8a3ef..5c978da 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -1,4 +1,8 @@
-use crate::{discriminant::Discriminant, taggable::TaggableInner, tagged_pointer::TaggedPointer};
+use crate::{
+    discriminant::{Discriminant, MAX_DISCRIMINANT},
+    taggable::TaggableInner,
+    tagged_pointer::TaggedPointer,
+};
 use alloc::boxed::Box;
 use core::{
     alloc::Layout,
@@ -79,7 +83,16 @@ impl<T> TaggedBox<T> {
     /// ```
     ///
     #[inline]
+    #[allow(clippy::absurd_extreme_comparisons)]
     pub fn new<U>(val: U, discriminant: Discriminant) -> Self {
+        // Checked here as well as by `TaggedPointer`, while `val` has not been moved to the heap yet
+        assert!(
+            discriminant <= MAX_DISCRIMINANT,
+            "Attempted to store a discriminant of {} while the max value is {}",
+            discriminant,
+            MAX_DISCRIMINANT,
+        );
+
         if mem::size_of::<U>() == 0 {
             let tagged = Self::dangling::<U>(discriminant);
             // The box now owns the value, so it must not be dropped here
-- 
2.43.0


From f29427ea34b2df270df6c3cdad14a14dee15b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:25 +0000
Subject: [PATCH 7/9] fix: honour formatting flags when printing a TaggedBox

Debug and Display started a fresh format, dropping {:#?}, width, precision etc.
---
 src/tagged_box.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tagged_box.rs b/src/tagged_box.rs
index 5c978da..bf78012 100644
--- a/src/tagged_box.rs
+++ b/src/tagged_box.rs
@@ -509,7 +509,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{:?}", this);
+                result = fmt::Debug::fmt(this, f);
             });
         }
 
@@ -525,7 +525,7 @@ where
         let mut result = Ok(());
         unsafe {
             T::ref_from_tagged_box(self, |this| {
-                result = write!(f, "{}", this);
+                result = fmt::Display::fmt(this, f);
             });
         }
 
-- 
2.43.0


From 62f6d204d603c9b766e92bdd7f1be535efb5e4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:32 +0000
Subject: [PATCH 8/9] fix: do not run an enum's own destructor when boxing or
 looking at it

into_tagged_box moved the fields out of the enum and then dropped it, and
ref_from_tagged_box dropped the unit variant it rebuilt for the callback, so the
destructor of an enum that implements Drop (over Copy fields, others were refused
with E0509) ran while the value was stored, and again when it was taken out.
---
 src/tagged_box_macro/meta_macros.rs | 66 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         | 22 +++++++---
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index 43250ae..a8cc947 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -394,7 +394,7 @@ macro_rules! generate_tuple_arm_expansion {
                                 #[repr(C)]
                                 struct $dollar variant($dollar ($dollar ty),*);
 
-                                $dollar crate::TaggedBox::<$dollar enum>::new::<$dollar variant>($dollar variant($( $access, )* $ident), $dollar counter::$dollar variant as _)
+                                $dollar crate::TaggedBox::<$dollar enum>::new(core::mem::ManuallyDrop::new($dollar variant($( core::ptr::read($access), )* core::ptr::read($ident))), $dollar counter::$dollar variant as _)
                             }
                         ]
                         $dollar ( $dollar rest )*
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new::<$variant>($variant(a,b,c,d,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t,u,v,w,x,y,z,aa,bb,cc,dd,ee,ff), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee), core::ptr::read(ff))), $counter::$variant as $crate::Discriminant)
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 96f2cd1..901e078 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new::<$ty>(var, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new(core::ptr::read(var)), $counter::$variant as $crate::Discriminant)
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new::<$variant>($variant { $( $member ),* }, $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $counter::$variant as $crate::Discriminant)
                 }
             ]
             $( $rest )*
@@ -95,8 +95,16 @@ macro_rules! __taggable_into_box {
     };
 
     (@inner $tagged:expr, $enum:ident, $counter:ident [$($finished:tt)*]) => {
-        match $tagged {
-            $( $finished )*
+        // The fields are moved to the heap bit by bit and `$tagged` is forgotten afterwards, as the
+        // enum may have a destructor of its own which must not run until the value is taken out again
+        #[allow(unused_unsafe)]
+        unsafe {
+            let boxed = match &$tagged {
+                $( $finished )*
+            };
+            let _moved_out = core::mem::ManuallyDrop::new($tagged);
+
+            boxed
         }
     };
 }
@@ -493,8 +501,8 @@ macro_rules! __ref_from_tagged {
             [
                 $( $tt )*
                 discrim if discrim == $counter::$variant as $crate::Discriminant => {
-                    let variant: $enum = $enum::$variant;
-                    ($callback)(&variant);
+                    let variant: core::mem::ManuallyDrop<$enum> = core::mem::ManuallyDrop::new($enum::$variant);
+                    ($callback)(&*variant);
                 }
             ]
             $( $rest )*
-- 
2.43.0


From 4a3a9daebf02b6941e877bd64faeab1ea548a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:21 +0000
Subject: [PATCH 9/9] fix: refuse to box variants past the last discriminant
 instead of truncating their position

---
 src/discriminant.rs                 | 19 ++++++++
 src/tagged_box_macro/meta_macros.rs | 74 ++++++++++++++---------------
 src/tagged_box_macro/mod.rs         |  8 ++--
 3 files changed, 60 insertions(+), 41 deletions(-)

diff --git a/src/discriminant.rs b/src/discriminant.rs
index a9153dc..f0c79a9 100644
--- a/src/discriminant.rs
+++ b/src/discriminant.rs
@@ -2,6 +2,25 @@
 
 pub use variables::*;
 
+/// The discriminant of the variant at `position`, for enums that have more variants than a
+/// [`Discriminant`] can count
+///
+/// # Panics
+///
+/// Will panic if `position` is larger than [`MAX_DISCRIMINANT`], as truncating it would make the variant
+/// indistinguishable from another one
+#[doc(hidden)]
+#[inline]
+#[allow(clippy::cast_possible_truncation, clippy::cast_lossless)]
+pub const fn of_variant(position: u64) -> Discriminant {
+    assert!(
+        position <= MAX_DISCRIMINANT as u64,
+        "Attempted to store a discriminant that is larger than the max value",
+    );
+
+    position as Discriminant
+}
+
 /// Macro to help generate documentation  
 /// Note: Any actual expressions that cannot be coerced into an `ident` should be wrapped
 /// in a combination of `stringify!` and `concat!`
diff --git a/src/tagged_box_macro/meta_macros.rs b/src/tagged_box_macro/meta_macros.rs
index a8cc947..9a80bae 100644
--- a/src/tagged_box_macro/meta_macros.rs
+++ b/src/tagged_box_macro/meta_macros.rs
@@ -339,7 +339,7 @@ macro_rules! generate_tuple_arm_expansion {
                     $dollar crate::__taggable_into_box!(@inner $dollar tagged, $dollar enum, $dollar counter
                             [
                             $dollar ( $dollar finished )*
-                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::dangling::<$dollar enum>($dollar counter::$dollar variant as u8),
+                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::dangling::<$dollar enum>($dollar crate::discriminant::of_variant($dollar counter::$dollar variant as u64)),
                         ]
                         $dollar ( $dollar rest )*
                 )
@@ -357,7 +357,7 @@ macro_rules! generate_tuple_arm_expansion {
                     $dollar crate::__taggable_into_box!(@inner $dollar tagged, $dollar enum, $dollar counter
                             [
                             $dollar ( $dollar finished )*
-                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::<$dollar enum>::dangling::<$dollar enum>($dollar counter::$dollar variant as u8),
+                            $dollar enum::$dollar variant() => $dollar crate::TaggedBox::<$dollar enum>::dangling::<$dollar enum>($dollar crate::discriminant::of_variant($dollar counter::$dollar variant as u64)),
                         ]
                         $dollar ( $dollar rest )*
                 )
@@ -394,7 +394,7 @@ macro_rules! generate_tuple_arm_expansion {
                                 #[repr(C)]
                                 struct $dollar variant($dollar ($dollar ty),*);
 
-                                $dollar crate::TaggedBox::<$dollar enum>::new(core::mem::ManuallyDrop::new($dollar variant($( core::ptr::read($access), )* core::ptr::read($ident))), $dollar counter::$dollar variant as _)
+                                $dollar crate::TaggedBox::<$dollar enum>::new(core::mem::ManuallyDrop::new($dollar variant($( core::ptr::read($access), )* core::ptr::read($ident))), $dollar crate::discriminant::of_variant($dollar counter::$dollar variant as u64))
                             }
                         ]
                         $dollar ( $dollar rest )*
@@ -447,7 +447,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::of_variant($counter::$variant as u64)),
             ]
             $( $rest )*
         )
@@ -456,7 +456,7 @@ macro_rules! __expand_tuple_arm {
       $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
+                $enum::$variant() => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::of_variant($counter::$variant as u64)),
             ]
             $( $rest )*
         )
@@ -469,7 +469,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -483,7 +483,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -497,7 +497,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -511,7 +511,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -525,7 +525,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -539,7 +539,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -553,7 +553,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -567,7 +567,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -581,7 +581,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -595,7 +595,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -609,7 +609,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -623,7 +623,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -637,7 +637,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -651,7 +651,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -665,7 +665,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -679,7 +679,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -693,7 +693,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -707,7 +707,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -721,7 +721,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -735,7 +735,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -749,7 +749,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -763,7 +763,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -777,7 +777,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -791,7 +791,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -805,7 +805,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -819,7 +819,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -833,7 +833,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -847,7 +847,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -861,7 +861,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -875,7 +875,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -889,7 +889,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
@@ -903,7 +903,7 @@ macro_rules! __expand_tuple_arm {
                 #[repr(C)]
                 struct $variant($( $ty ),*);
 
-                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee), core::ptr::read(ff))), $counter::$variant as $crate::Discriminant)
+                $crate::TaggedBox::new(core::mem::ManuallyDrop::new($variant(core::ptr::read(a), core::ptr::read(b), core::ptr::read(c), core::ptr::read(d), core::ptr::read(e), core::ptr::read(f), core::ptr::read(g), core::ptr::read(h), core::ptr::read(i), core::ptr::read(j), core::ptr::read(k), core::ptr::read(l), core::ptr::read(m), core::ptr::read(n), core::ptr::read(o), core::ptr::read(p), core::ptr::read(q), core::ptr::read(r), core::ptr::read(s), core::ptr::read(t), core::ptr::read(u), core::ptr::read(v), core::ptr::read(w), core::ptr::read(x), core::ptr::read(y), core::ptr::read(z), core::ptr::read(aa), core::ptr::read(bb), core::ptr::read(cc), core::ptr::read(dd), core::ptr::read(ee), core::ptr::read(ff))), $crate::discriminant::of_variant($counter::$variant as u64))
             }
         ]
         $( $rest )*
diff --git a/src/tagged_box_macro/mod.rs b/src/tagged_box_macro/mod.rs
index 901e078..2bbfea6 100644
--- a/src/tagged_box_macro/mod.rs
+++ b/src/tagged_box_macro/mod.rs
@@ -42,7 +42,7 @@ macro_rules! __taggable_into_box {
             [
                 $( $finished )*
                 $enum::$variant(var) => {
-                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new(core::ptr::read(var)), $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new(core::ptr::read(var)), $crate::discriminant::of_variant($counter::$variant as u64))
                 },
             ]
             $( $rest )*
@@ -62,7 +62,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $crate::discriminant::of_variant($counter::$variant as u64))
                 }
             ]
             $( $rest )*
@@ -77,7 +77,7 @@ macro_rules! __taggable_into_box {
                     struct $variant {
                         $( $member: $ty ),*
                     }
-                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $counter::$variant as $crate::Discriminant)
+                    $crate::TaggedBox::<$enum>::new(core::mem::ManuallyDrop::new($variant { $( $member: core::ptr::read($member) ),* }), $crate::discriminant::of_variant($counter::$variant as u64))
                 }
             ]
             $( $rest )*
@@ -88,7 +88,7 @@ macro_rules! __taggable_into_box {
         $crate::__taggable_into_box!(@inner $tagged, $enum, $counter
             [
                 $( $finished )*
-                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($counter::$variant as $crate::Discriminant),
+                $enum::$variant => $crate::TaggedBox::<$enum>::dangling::<$enum>($crate::discriminant::of_variant($counter::$variant as u64)),
             ]
             $( $rest )*
         )
-- 
2.43.0

