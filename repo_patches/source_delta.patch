From a078950cf4379d3e553f4513a258343488654ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:02 +0000
Subject: [PATCH 01/99] fix: read plain PGM and PPM files with a maxval of 1

The loader treated maxval 1 as the sign of a bitmap and inverted the
samples.  Only P1 files, which have no maxval, store 1 for black.
---
 src/input-pnm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 6d34a83..3a37be6 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -253,13 +253,14 @@ static void pnm_load_ascii(PNMScanner * scan, PNMInfo * info, unsigned char *dat
           pnmscanner_gettoken(scan, (unsigned char *)buf, BUFLEN);
         else
           pnmscanner_getsmalltoken(scan, (unsigned char *)buf);
+        if (!info->np) {        /* pbm: a 1 is black */
+          d[b] = (*buf == '0') ? 0xff : 0x00;
+          continue;
+        }
         switch (info->maxval) {
         case 255:
           d[b] = (unsigned char)(isdigit(*buf) ? atoi(buf) : 0);
           break;
-        case 1:
-          d[b] = (*buf == '0') ? 0xff : 0x00;
-          break;
         default:
           d[b] = (unsigned char)(255.0 * (((double)(isdigit(*buf) ? atoi(buf) : 0))
                                           / (double)(info->maxval)));
-- 
2.43.0


From 92c823c42677deee413152ffde226dedffad147a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:02 +0000
Subject: [PATCH 02/99] fix: keep the last character of a plain PNM file

The buffered scanner flagged end of file together with the last character,
so the final sample was lost when the file did not end in white space.
---
 src/input-pnm.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 3a37be6..10c6ad7 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -412,14 +412,16 @@ static void pnmscanner_getsmalltoken(PNMScanner * s, unsigned char *buf)
 static void pnmscanner_getchar(PNMScanner * s)
 {
   if (s->inbuf) {
-    s->cur = s->inbuf[s->inbufpos++];
     if (s->inbufpos >= s->inbufvalidsize) {
-      if (s->inbufsize > s->inbufvalidsize)
-        s->eof = 1;
-      else
-        s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
+      s->inbufvalidsize = fread(s->inbuf, 1, s->inbufsize, s->fd);
       s->inbufpos = 0;
+      if (s->inbufvalidsize <= 0) {
+        s->inbufvalidsize = 0;
+        s->eof = 1;
+        return;
+      }
     }
+    s->cur = s->inbuf[s->inbufpos++];
   } else
     s->eof = !fread(&(s->cur), 1, 1, s->fd);
 }
-- 
2.43.0


From a4b0a927bba05b18193bcffb2ded5f3269b3db8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:02 +0000
Subject: [PATCH 03/99] fix: leave room for the terminator of an over-long PNM
 token

---
 src/input-pnm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 10c6ad7..2b6fd9c 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -387,7 +387,7 @@ static void pnmscanner_gettoken(PNMScanner * s, unsigned char *buf, unsigned int
   unsigned int ctr = 0;
 
   pnmscanner_eatwhitespace(s);
-  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize)) {
+  while (!(s->eof) && !isspace(s->cur) && (s->cur != '#') && (ctr < bufsize - 1)) {
     buf[ctr++] = s->cur;
     pnmscanner_getchar(s);
   }
-- 
2.43.0


From 8e7c666d19005a298001309908f37b9d4dc14881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:02 +0000
Subject: [PATCH 04/99] fix: refuse PNM files with an unknown magic number

The loader pointer was tested without ever having been initialised.
---
 src/input-pnm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index 2b6fd9c..b76f94e 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -149,6 +149,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   }
 
   /* Look up magic number to see what type of PNM this is */
+  pnminfo->loader = NULL;
   for (ctr = 0; pnm_types[ctr].name; ctr++)
     if (buf[1] == pnm_types[ctr].name) {
       pnminfo->np = pnm_types[ctr].np;
-- 
2.43.0


From 2a9f3c8b8fc4b84914108fbf5de25cd91f3ad476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:02 +0000
Subject: [PATCH 05/99] fix: refuse PNM files larger than a bitmap can hold

Sizes above 65535 were cut to 16 bits for the allocation but used in full
while loading.
---
 src/input-pnm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-pnm.c b/src/input-pnm.c
index b76f94e..7438e36 100644
--- a/src/input-pnm.c
+++ b/src/input-pnm.c
@@ -170,7 +170,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->xres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->xres <= 0) {
+  if (pnminfo->xres <= 0 || pnminfo->xres > 0xffff) {
     LOG("pnm filter: invalid xres while loading\n");
     at_exception_fatal(&excep, "pnm filter: premature end of file");
     goto cleanup;
@@ -183,7 +183,7 @@ input_pnm_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     goto cleanup;
   }
   pnminfo->yres = isdigit(*buf) ? atoi(buf) : 0;
-  if (pnminfo->yres <= 0) {
+  if (pnminfo->yres <= 0 || pnminfo->yres > 0xffff) {
     LOG("pnm filter: invalid yres while loading\n");
     at_exception_fatal(&excep, "pnm filter: invalid yres while loading");
     goto cleanup;
-- 
2.43.0


From f68b1495b67d3f508598838b1f44cd94208e05d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 06/99] fix: make room for BMP version 4 and 5 headers

Their 104 and 120 bytes were read into a 64 byte buffer.
---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f48a6fb..2b02e06 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -136,7 +136,7 @@ static unsigned char *ReadImage(FILE *, int, int, unsigned char[256][3], int, in
 at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_func msg_func, void * msg_data, void * user_data)
 {
   FILE *fd;
-  unsigned char buffer[64];
+  unsigned char buffer[128];
   int ColormapSize, rowbytes, Maps, Grey;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
-- 
2.43.0


From 9022ca2e9a19bdc778d0eb45e9827cf9b653d757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 07/99] fix: read BMP files that have a palette

The palette reader reported failure even when it succeeded, so every file
of up to 8 bits per pixel came back empty.
---
 src/input-bmp.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 2b02e06..26cb0d1 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -482,7 +482,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     if (!ReadOK(fd, rgb, size)) {
       LOG("Bad colormap\n");
       at_exception_fatal(exp, "Bad colormap");
-      goto cleanup;
+      return 0;
     }
 
     /* Bitmap save the colors in another order! But change only once! */
@@ -492,8 +492,7 @@ static int ReadColorMap(FILE * fd, unsigned char buffer[256][3], int number, int
     buffer[i][2] = rgb[0];
     *grey = ((*grey) && (rgb[0] == rgb[1]) && (rgb[1] == rgb[2]));
   }
-cleanup:
-  return 0;
+  return 1;
 }
 
 static int
-- 
2.43.0


From 0df5e1ec4d3a5d12968572e7e41ddb1667dcee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 08/99] fix: map the samples of grey BMP files once

The palette was applied while unpacking and again afterwards.
---
 src/input-bmp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 26cb0d1..f7f5808 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -810,9 +810,13 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
           for (xpos = 0; xpos < width; xpos++)
              {
                index = *temp2++;
-               *temp3++ = cmap[index][0];
-			   if (!Grey)
+			   if (Grey)
 			     {
+                   *temp3++ = index; /* already mapped */
+			     }
+			   else
+			     {
+                   *temp3++ = cmap[index][0];
                    *temp3++ = cmap[index][1];
                    *temp3++ = cmap[index][2];
 			     }
-- 
2.43.0


From 249eb0c9898ec72a66b51ed351698c6a87a59a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 09/99] fix: read BMP files without a palette as colour

The grey flag was only set while reading a palette.
---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index f7f5808..c573b1d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -137,7 +137,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 {
   FILE *fd;
   unsigned char buffer[128];
-  int ColormapSize, rowbytes, Maps, Grey;
+  int ColormapSize, rowbytes, Maps, Grey = 0;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
-- 
2.43.0


From 10a897ea63efaabbd7df258e1eccf8e634c61b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 10/99] fix: stop reading a 24 bit BMP after its last row

Data following the pixels was stored in front of the image.
---
 src/input-bmp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index c573b1d..c50c479 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -630,6 +630,10 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
                *(temp++)= row_buf[xpos * 3 + 1];
                *(temp++)= row_buf[xpos * 3];
             }
+
+          if (ypos == 0)
+            break;
+
           --ypos; /* next line */
         }
 	}
-- 
2.43.0


From 54df1f6783f9346618f09300299204a37c906e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 11/99] fix: place the rows of BMP files with an alpha mask
 correctly

Rows were spaced for four channels in a three channel image.
---
 src/input-bmp.c | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index c50c479..49a943d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -564,14 +564,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
   if (bpp >= 16) /* color image */
     {
       XMALLOC (image, width * height * 3 * sizeof (unsigned char));
-	  if (masks[3].mask != 0)
-	  {
-		  channels = 4;
-	  }
-	  else
-	  {
-		  channels = 3;
-	  }
+	  channels = 3; /* alpha is ignored */
   }
   else if (Grey) /* Grey image */
     {
-- 
2.43.0


From fd36d06cbd8271c44be0e9710b2a59a45e8bde1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 12/99] fix: read three 32 bit channel masks from a BMP file

---
 src/input-bmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 49a943d..a33ed04 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -259,7 +259,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
     memset(masks, 0, sizeof(masks));
     if (Bitmap_Head.biCompr == BI_BITFIELDS)
     {
-      if (!ReadOK(fd, buffer, 3 * sizeof(unsigned long)))
+      if (!ReadOK(fd, buffer, 3 * 4))
       {
         LOG("Error reading BMP file header\n");
         at_exception_fatal(&exp, "Error reading BMP file header");
-- 
2.43.0


From c5d5132b96f38bf5729118910f42b4cfcf1a11de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 13/99] fix: handle empty and 32 bit wide BMP channel masks

An empty mask led to a shift by -1 and a division by zero.
---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index a33ed04..0b58729 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -524,8 +524,8 @@ ReadChannelMasks(unsigned long       *tmp,
 			mask = mask >> 1;
 		}
 
-		masks[i].shiftin = offset;
-		masks[i].max_value = (float)((1 << nbits) - 1);
+		masks[i].shiftin = (offset < 0) ? 0 : offset;
+		masks[i].max_value = (nbits == 0) ? (float)1.0 : (float)((1ULL << nbits) - 1);
 
 #ifdef _DEBUG
 		LOG("Channel %d mask %08x in %d max_val %d\n",
-- 
2.43.0


From 1159b7cc708d47b63a0c7cfdd9b48eb442c5c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 14/99] fix: return the pixels of run-length encoded BMP files

They were decoded into a buffer that was then dropped.
---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 0b58729..23f127b 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -786,6 +786,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		    ypos -= (unsigned char) row_buf[1];
 		  }
 	    }
+	    memcpy(image, dest, width * height * channels);
 	    break;
 	  }
     }
-- 
2.43.0


From afbb90574001d66bf1c00abcdfad61c74f5a2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:06:26 +0000
Subject: [PATCH 15/99] fix: read the pixels of 2 bit BMP files

---
 src/input-bmp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 23f127b..9467c1f 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -658,6 +658,7 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   case 8:
   case 4:
+  case 2:
   case 1:
     {
       if (compression == 0)
-- 
2.43.0


From a88bc326dc196b09c2022c1d961df37f3c2730a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 16/99] fix: give skipped pixels of grey BMP files the first
 palette colour

Map grey samples in one place, after unpacking, so pixels that a run-length
encoded file leaves out are mapped as well.
---
 src/input-bmp.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 9467c1f..e2884f8 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -669,8 +669,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 		  {
 			temp = image + (ypos * rowstride) + (xpos * channels);
 			*temp = (v & (((1 << bpp) - 1) << (8 - (i*bpp)))) >> (8 - (i*bpp));
-			if (Grey)
-				*temp = cmap[*temp][0];
 		}
 
 		if (xpos == width)
@@ -717,8 +715,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 			          {
 			            temp = dest + (ypos * rowstride) + (xpos * channels);
 			            *temp = (unsigned char) ((row_buf[1] & (((1<<bpp)-1) << (8 - (i * bpp)))) >> (8 - (i * bpp)));
-				        if (Grey)
-					      *temp = cmap[*temp][0];
 			          }
 		      }
 		  }
@@ -753,8 +749,6 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 					temp =
 						dest + (ypos * rowstride) + (xpos * channels);
 					*temp = (v >> (8 - (i*bpp))) & ((1 << bpp) - 1);
-					if (Grey)
-						*temp = cmap[*temp][0];
 					i++;
 					xpos++;
 				}
@@ -809,13 +803,9 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
           for (xpos = 0; xpos < width; xpos++)
              {
                index = *temp2++;
-			   if (Grey)
+               *temp3++ = cmap[index][0];
+			   if (!Grey)
 			     {
-                   *temp3++ = index; /* already mapped */
-			     }
-			   else
-			     {
-                   *temp3++ = cmap[index][0];
                    *temp3++ = cmap[index][1];
                    *temp3++ = cmap[index][2];
 			     }
-- 
2.43.0


From d31d6fe6da5acb3d3cbb956834a5e45eebfafb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 17/99] fix: refuse BMP files larger than a bitmap can hold

---
 src/input-bmp.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index e2884f8..ac690b9 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -404,6 +404,14 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  goto cleanup;
   }
 
+  if (Bitmap_Head.biWidth > 0xffff ||
+	  labs((long)Bitmap_Head.biHeight) > 0xffff)
+  {
+	  LOG("%s is too large", filename);
+	  at_exception_fatal(&exp, "bmp: picture is too large");
+	  goto cleanup;
+  }
+
   /* biHeight may be negative, but -2147483648 is dangerous because:
 	 -2147483648 == -(-2147483648) */
   if (Bitmap_Head.biWidth < 0 ||
-- 
2.43.0


From 668461bd0582382c1a81d80718f04d77d3159dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 18/99] fix: read BMP files stored from top to bottom

The negative height was passed on as it was and made the allocation fail.
---
 src/input-bmp.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index ac690b9..1c3640b 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -138,6 +138,7 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
   FILE *fd;
   unsigned char buffer[128];
   int ColormapSize, rowbytes, Maps, Grey = 0;
+  int height, row, i;
   unsigned char ColorMap[256][3];
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *image_storage;
@@ -472,9 +473,27 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 
   fseek(fd, Bitmap_File_Head.bfOffs, SEEK_SET);
   
+  height = labs((long)Bitmap_Head.biHeight);
+
   /* Get the Image and return the ID or -1 on error */
-  image_storage = ReadImage(fd, Bitmap_Head.biWidth, Bitmap_Head.biHeight, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
-  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)Bitmap_Head.biHeight, Grey ? 1 : 3);
+  image_storage = ReadImage(fd, Bitmap_Head.biWidth, height, ColorMap, Bitmap_Head.biClrUsed, Bitmap_Head.biBitCnt, Bitmap_Head.biCompr, rowbytes, Grey, masks, &exp);
+  image = at_bitmap_init(image_storage, (unsigned short)Bitmap_Head.biWidth, (unsigned short)height, Grey ? 1 : 3);
+
+  if ((long)Bitmap_Head.biHeight < 0) {
+    /* The rows are stored from top to bottom. */
+    int stride = AT_BITMAP_WIDTH(&image) * AT_BITMAP_PLANES(&image);
+
+    for (row = 0; row < height / 2; row++) {
+      unsigned char *a = AT_BITMAP_PIXEL(&image, row, 0);
+      unsigned char *b = AT_BITMAP_PIXEL(&image, height - 1 - row, 0);
+
+      for (i = 0; i < stride; i++) {
+        unsigned char t = a[i];
+        a[i] = b[i];
+        b[i] = t;
+      }
+    }
+  }
 cleanup:
   fclose(fd);
   return (image);
-- 
2.43.0


From 52352c0bf53a4beff9df4d599241454b7ad92851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 19/99] fix: define the BMP palette entries that the file does
 not store

---
 src/input-bmp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 1c3640b..87a107b 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -394,6 +394,10 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 
   if (ColormapSize > 256)
 	  ColormapSize = 256;
+  else if (ColormapSize < 0)
+	  ColormapSize = 0;
+
+  memset(ColorMap, 0, sizeof(ColorMap));
 
   /* Sanity checks */
 
-- 
2.43.0


From 6b9c0c47472d5e4fa9bcac016f2e91201cbcc67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 20/99] fix: define the pixels that a truncated BMP file does
 not store

---
 src/input-bmp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 87a107b..18f0d98 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -594,17 +594,17 @@ static unsigned char *ReadImage(FILE * fd, int width, int height, unsigned char
 
   if (bpp >= 16) /* color image */
     {
-      XMALLOC (image, width * height * 3 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 3 * sizeof (unsigned char));
 	  channels = 3; /* alpha is ignored */
   }
   else if (Grey) /* Grey image */
     {
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
   else /* indexed image */
 	{
-      XMALLOC (image, width * height * 1 * sizeof (unsigned char));
+      XCALLOC (image, width * height * 1 * sizeof (unsigned char));
 	  channels = 1;
 	}
 
-- 
2.43.0


From 77979d6a7111f8a4d982b1b35c7441a13d1bbac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:07:07 +0000
Subject: [PATCH 21/99] fix: use the default channels of BMP files with 56 to
 64 byte headers

The masks only apply to BITFIELDS files.
---
 src/input-bmp.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index 18f0d98..fbb0e5a 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -314,7 +314,10 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
 	  Bitmap_Head.masks[3] = ToL(&buffer[0x30]);        /* 42 */
 
 	  Maps = 4;
-	  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
+	  if (Bitmap_Head.biCompr == BI_RGB)
+		  setMasksDefault(Bitmap_Head.biBitCnt, masks);
+	  else
+		  ReadChannelMasks(&Bitmap_Head.masks[0], masks, 4);
 	}
   else if (Bitmap_File_Head.biSize == 108 ||
   Bitmap_File_Head.biSize == 124)
-- 
2.43.0


From 00d1725a96d8097222f9e78d6833432b5d928539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 22/99] fix: stop when a TGA file cannot be opened

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 865897b..2593127 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -117,6 +117,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   if (!fp) {
     LOG("TGA: can't open \"%s\"\n", filename);
     at_exception_fatal(&exp, "Cannot open input tga file");
+    return image;
   }
 
   /* Check the footer. */
-- 
2.43.0


From f606be4f8f275e8dbf1166378c39f2254a214353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 23/99] fix: read TGA files that are shorter than a footer

The footer is optional; its contents were read but never used.
---
 src/input-tga.c | 19 +------------------
 1 file changed, 1 insertion(+), 18 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 2593127..ddb4318 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -93,15 +93,6 @@ struct tga_header {
   unsigned char descriptor;
 };
 
-static struct {
-  unsigned int extensionAreaOffset;
-  unsigned int developerDirectoryOffset;
-#define TGA_SIGNATURE "trueVISION-XFILE"
-  char signature[16];
-  char dot;
-  char null;
-} tga_footer;
-
 static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type * exp);
 
 at_bitmap
@@ -120,15 +111,7 @@ input_tga_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
     return image;
   }
 
-  /* Check the footer. */
-  if (fseek(fp, 0L - (sizeof(tga_footer)), SEEK_END)
-      || fread(&tga_footer, sizeof(tga_footer), 1, fp) != 1) {
-    LOG("TGA: Cannot read footer from \"%s\"\n", filename);
-    at_exception_fatal(&exp, "TGA: Cannot read footer");
-    goto cleanup;
-  }
-
-  /* Check the signature. */
+  /* The footer is optional and nothing in it is needed. */
 
   if (fseek(fp, 0, SEEK_SET) || fread(&hdr, sizeof(hdr), 1, fp) != 1) {
     LOG("TGA: Cannot read header from \"%s\"\n", filename);
-- 
2.43.0


From d7a0582d8c7e0d3a13b46ededcbff41982f5017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 24/99] fix: forget the run-length state of a TGA file when it
 has been read

Pixels left over from one file were delivered at the start of the next,
and the buffer kept the pixel size of the first file it was used for.
---
 src/input-tga.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index ddb4318..b6438a7 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -143,9 +143,9 @@ static int std_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 /* Decode a bufferful of file. */
 static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
 {
-  static unsigned char *statebuf = 0;
-  static int statelen = 0;
-  static int laststate = 0;
+  unsigned char statebuf[RLE_PACKETSIZE * 4];
+  int statelen = 0;
+  int laststate = 0;
 
   int j, k;
   int buflen, count, bytes;
@@ -187,9 +187,6 @@ static int rle_fread(unsigned char *buf, int datasize, int nelems, FILE * fp)
       /* We can copy directly into the image buffer. */
       p = buf + j;
     } else {
-      /* Allocate the state buffer if we haven't already. */
-      if (!statebuf)
-        statebuf = (unsigned char *)malloc(RLE_PACKETSIZE * datasize);
       p = statebuf;
     }
 
-- 
2.43.0


From 2fb0c44f65f11f1c8422992f21f19500a9d255d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 25/99] fix: mirror TGA files with a bottom right origin in
 both directions

---
 src/input-tga.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index b6438a7..dd3a08b 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -473,11 +473,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
   if (horzrev || vertrev) {
     unsigned char *tmp;
-    if (vertrev) {
+    if (vertrev && !horzrev) {
       /* We need to mirror only vertically. */
       for (j = 0; j < bsize; j += wbytes)
         memcpy(buffer + j, image.bitmap + bsize - (j + wbytes), wbytes);
-    } else if (horzrev) {
+    } else if (horzrev && !vertrev) {
       /* We need to mirror only horizontally. */
       for (j = 0; j < bsize; j += wbytes)
         for (k = 0; k < wbytes; k += pelbytes)
-- 
2.43.0


From 39dcb1bc8a71e38174db785ddb7d8ce193c480f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 26/99] fix: accept TGA pixels beyond the end of the colour map

The table was only as large as the map stored in the file.
---
 src/input-tga.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index dd3a08b..28a3c85 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -365,10 +365,10 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 
     pelbytes = ROUNDUP_DIVIDE(hdr->colorMapSize, 8);
     colors = length + index;
-    cmap = (unsigned char *)malloc(colors * pelbytes);
 
-    /* Zero the entries up to the beginning of the map. */
-    memset(cmap, 0, index * pelbytes);
+    /* Zero the entries that the file does not store; any 8 bit index
+       may occur in the image. */
+    cmap = (unsigned char *)calloc(MAX(colors, 256), pelbytes);
 
     /* Read in the rest of the colormap. */
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
-- 
2.43.0


From 869053449c0840070aaab754e672915e8a625343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 27/99] fix: release the colour map of a truncated TGA file

---
 src/input-tga.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/input-tga.c b/src/input-tga.c
index 28a3c85..8bc9d7e 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -374,6 +374,7 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     if (fread(cmap + (index * pelbytes), pelbytes, length, fp) != length) {
       LOG("TGA: error reading colormap (ftell == %ld)\n", ftell(fp));
       at_exception_fatal(exp, "TGA: error reading colormap");
+      free(cmap);
       return image;
     }
 
-- 
2.43.0


From 8d6e2acfd5b6bb64d6258697366a955ff8399a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 28/99] fix: ignore the alpha values of a TGA colour map

They were written over the indices of neighbouring pixels.
---
 src/input-tga.c | 31 +------------------------------
 1 file changed, 1 insertion(+), 30 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index 8bc9d7e..c459829 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -223,9 +223,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
-  unsigned char *alphas = NULL;
 
-  unsigned short width, height, bpp, abpp, pbpp, nalphas;
+  unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
   int pelbytes, wbytes, bsize, npels, pels;
   int rle, badread;
@@ -348,7 +347,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     return image;
   }
 
-  nalphas = 0;
   if (hdr->colorMapType == 1) {
     /* We need to read in the colormap. */
     int index, colors;
@@ -378,11 +376,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       return image;
     }
 
-    /* If we have an alpha channel, then create a mapping to the alpha
-       values. */
-    if (pelbytes > 3)
-      alphas = (unsigned char *)malloc(colors);
-
     k = 0;
     for (j = 0; j < colors * pelbytes; j += pelbytes) {
       /* Swap from BGR to RGB. */
@@ -390,17 +383,8 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       cmap[k++] = cmap[j + 2];
       cmap[k++] = cmap[j + 1];
       cmap[k++] = tmp;
-
-      /* Take the alpha values out of the colormap. */
-      if (alphas)
-        alphas[nalphas++] = cmap[j + 3];
     }
 
-    /* If the last color was transparent, then omit it from the
-       mapping. */
-    if (nalphas && alphas[nalphas - 1] == 0)
-      colors--;
-
     /* Now pretend as if we only have 8 bpp. */
     abpp = 0;
     pbpp = 8;
@@ -444,17 +428,6 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     /* Fill the rest of this tile with zeros. */
     memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
   }
-  /* If we have indexed alphas, then set them. */
-  if (nalphas) {
-    /* Start at the end of the buffer, and work backwards. */
-    k = (npels - 1) * bpp;
-    for (j = bsize - pelbytes; j >= 0; j -= pelbytes) {
-      /* Find the alpha for this index. */
-      image.bitmap[j + 1] = alphas[image.bitmap[k]];
-      image.bitmap[j] = image.bitmap[k--];
-    }
-  }
-
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
@@ -522,7 +495,5 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
     free(cmap);
   }
 
-  free(alphas);
-
   return image;
 }                               /* read_image */
-- 
2.43.0


From 3165b3833c8df0c57bcc5c6ed4284b78d22f151d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:27 +0000
Subject: [PATCH 29/99] fix: read TGA files with an alpha channel

Their pixels are wider than the three planes of the bitmap they were read
into.
---
 src/input-tga.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/input-tga.c b/src/input-tga.c
index c459829..e137aa6 100644
--- a/src/input-tga.c
+++ b/src/input-tga.c
@@ -223,10 +223,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
 {
   at_bitmap image = at_bitmap_init(0, 0, 0, 1);
   unsigned char *buffer = NULL;
+  unsigned char *raw;
 
   unsigned short width, height, bpp, abpp, pbpp;
   int j, k;
-  int pelbytes, wbytes, bsize, npels, pels;
+  int pelbytes, wbytes, bsize, npels, pels, samples;
   int rle, badread;
   int itype, dtype;
   unsigned char *cmap = NULL;
@@ -412,10 +413,11 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
   bsize = wbytes * height;
 
   /* Suck in the data one height at a time. */
+  raw = (unsigned char *)calloc(npels + 1, bpp);
   if (badread)
     pels = 0;
   else
-    pels = (*myfread) (image.bitmap, bpp, npels, fp);
+    pels = (*myfread) (raw, bpp, npels, fp);
 
   if (pels != npels) {
     if (!badread) {
@@ -425,9 +427,15 @@ static at_bitmap ReadImage(FILE * fp, struct tga_header *hdr, at_exception_type
       badread = 1;
     }
 
-    /* Fill the rest of this tile with zeros. */
-    memset(image.bitmap + (pels * bpp), 0, ((npels - pels) * bpp));
+    /* The rest of this tile remains zero. */
+    memset(raw + (pels * bpp), 0, ((npels - pels) * bpp));
   }
+
+  /* Keep the color or gray samples; there is no place for alpha. */
+  samples = (itype == RGB) ? 3 : 1;
+  for (j = 0; j < npels; j++)
+    memcpy(image.bitmap + j * samples, raw + j * bpp, samples);
+  free(raw);
   if (itype == GRAY)
     for (j = bsize / 3 - 1; j >= 0; j -= 1) {
       /* Find the alpha for this index. */
-- 
2.43.0


From 064de71fe40b64b6159eb0302b5df33679a5977b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:43 +0000
Subject: [PATCH 30/99] fix: report damaged PNG files instead of aborting

libpng calls abort() when the error handler returns and no jump buffer
has been set.
---
 src/input-png.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/input-png.c b/src/input-png.c
index 6671bb6..dd40901 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -98,6 +98,12 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   if (!init_structs(&png, &info, &end_info, exp))
     return 0;
 
+  /* libpng must not return to the point of an error. */
+  if (setjmp(png_jmpbuf(png))) {
+    finalize_structs(png, info, end_info);
+    return 0;
+  }
+
   png_init_io(png, stream);
   CHECK_ERROR();
 
-- 
2.43.0


From 0d69db85292518e34cc917f52e69730241cebd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:43 +0000
Subject: [PATCH 31/99] fix: read PNG files with transparency

Rows with an alpha channel were copied as if they had none, which mixed up
the samples and read past the end of grey rows.
---
 src/input-png.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/input-png.c b/src/input-png.c
index dd40901..3e4a50f 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -107,7 +107,7 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
   png_init_io(png, stream);
   CHECK_ERROR();
 
-  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
+  png_read_png(png, info, PNG_TRANSFORM_STRIP_16 | PNG_TRANSFORM_STRIP_ALPHA | PNG_TRANSFORM_PACKING | PNG_TRANSFORM_EXPAND, 0);
   rows = png_get_rows(png, info);
   
   width = (unsigned short)png_get_image_width(png, info);
-- 
2.43.0


From 344844dd344f68469a5737e4c1457732790a4a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:08:43 +0000
Subject: [PATCH 32/99] fix: refuse PNG files larger than a bitmap can hold

---
 src/input-png.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-png.c b/src/input-png.c
index 3e4a50f..cd5e42f 100644
--- a/src/input-png.c
+++ b/src/input-png.c
@@ -104,6 +104,8 @@ static int load_image(at_bitmap * image, FILE * stream, at_input_opts_type * opt
     return 0;
   }
 
+  /* The size of a bitmap is stored in 16 bits. */
+  png_set_user_limits(png, 0xffff, 0xffff);
   png_init_io(png, stream);
   CHECK_ERROR();
 
-- 
2.43.0


From ade5ca9a9a5c9aa6336b4fa268e382032659bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:36 +0000
Subject: [PATCH 33/99] fix: use the size of a GF character after trimming
 blank edges

The bitmap was copied with its old size from the smaller trimmed one.
---
 src/input-gf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index 41c018f..f6b605a 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -458,6 +458,8 @@ static void deblank(gf_char_t * sym)
       sym->bbox_max_row -= white_on_top;
       sym->bbox_min_col += white_on_left;
       sym->bbox_max_col -= white_on_right;
+      sym->width = condensed.width;
+      sym->height = condensed.height;
     }
     free(sym->bitmap);
     sym->bitmap = condensed.bitmap;
-- 
2.43.0


From ce1d8ce00eaec4b19d37d9dca7821b0ad0966ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:36 +0000
Subject: [PATCH 34/99] fix: skip specials inside GF characters

The opcode had already been consumed when the specials were skipped, and
the longest form was not known.
---
 src/input-gf.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/input-gf.c b/src/input-gf.c
index f6b605a..27f0bec 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -199,6 +199,9 @@ static void skip_specials(gf_font_t * font)
     case XXX3:
       move_relative(font, get_three(font));
       continue;
+    case XXX4:
+      move_relative(font, get_four(font));
+      continue;
     case YYY:
       (void)get_four(font);
       continue;
@@ -361,6 +364,7 @@ static void get_character_bitmap(gf_char_t * sym)
       /* do nothing */
 
     } else if ((XXX1 <= c && c <= XXX4) || c == YYY) {
+      move_relative(sym->font, -1);
       skip_specials(sym->font);
 
     } else {
-- 
2.43.0


From 3d3adc8daa9c230ae487cc68438d55e1218150ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:36 +0000
Subject: [PATCH 35/99] fix: leave the caller's options alone when reading a GF
 file

The code of the first character was stored in them, so the next file was
searched for that character.
---
 src/input-gf.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 27f0bec..46446a1 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -650,12 +650,13 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
   gf_font_t fontdata, *font = &fontdata;
   gf_char_t chardata, *sym = &chardata;
   unsigned int i, j, ptr;
+  unsigned charcode = opts->charcode;
 
   if (!gf_open(font, filename)) {
     at_exception_fatal(&exp, "Cannot open input GF file");
     return bitmap;
   }
-  if (opts->charcode == 0) {
+  if (charcode == 0) {
     /* Find a first character in font file. */
     for (i = 0; i < 256; ++i)
       if (font->char_loc[i].char_pointer != -1)
@@ -664,16 +665,16 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       at_exception_fatal(&exp, "No characters in input GF file");
       return bitmap;
     }
-    opts->charcode = i;
+    charcode = i;
   }
-  if (!gf_get_char(font, sym, (unsigned char)opts->charcode)) {
+  if (!gf_get_char(font, sym, (unsigned char)charcode)) {
     fclose(font->input_file);
     at_exception_fatal(&exp, "Error reading character from GF file");
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = opts->charcode;
+  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From 66c7b25eb56c41d4aa2a33363d5600faea6759fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:36 +0000
Subject: [PATCH 36/99] fix: keep the pixels of a GF character inside its
 bounding box

A damaged file could paint anywhere in memory.
---
 src/input-gf.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 46446a1..ee1509e 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -268,6 +268,11 @@ static void get_character_bitmap(gf_char_t * sym)
     return;
   }
 
+  if (width > 0xffff || height > 0xffff) {
+    fprintf(stderr, "%s: character is too large\n", sym->font->input_filename);
+    exit(-1);
+  }
+
   sym->height = height;
   sym->width = width;
   sym->bitmap = calloc(width, height);
@@ -316,11 +321,12 @@ static void get_character_bitmap(gf_char_t * sym)
         unsigned matrix_x, matrix_y;
 
         matrix_y = sym->bbox_max_row - cur_y;
-        for (; length != 0; length--) {
-          matrix_x = cur_x - sym->bbox_min_col;
-
+        matrix_x = cur_x - sym->bbox_min_col;
+        cur_x += length;
+        /* Ignore anything outside of the bounding box. */
+        for (; length != 0 && matrix_y < sym->height && matrix_x < sym->width; length--) {
           PIXEL(sym, matrix_y, matrix_x) = 255;
-          cur_x++;
+          matrix_x++;
         }
       } else {
         cur_x += length;
-- 
2.43.0


From 381412f072945c1a7d6e4173090c30c4dfb2e21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:09:43 +0000
Subject: [PATCH 37/99] fix: report damaged GF files instead of ending the
 program

The reader called exit() on any unexpected byte.  Errors now return to the
caller through the usual exception, and the file is closed.
---
 src/input-gf.c | 77 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 24 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index ee1509e..473d34a 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -24,6 +24,7 @@
 #include "config.h"
 #endif /* Def: HAVE_CONFIG_H */
 
+#include <setjmp.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -89,6 +90,7 @@ typedef struct _gf_font_t {
   long bbox_min_row;
   long bbox_max_row;
   gf_locator_t char_loc[256];
+  jmp_buf error;                /* where to go when the file is damaged */
 } gf_font_t;
 
 /* The characters are the most important information in the GF file. */
@@ -109,13 +111,18 @@ typedef struct {
 /* This is the pixel at [ROW,COL]. */
 #define PIXEL(s,r,c)	(s)->bitmap [(r) * (s)->width + (c)]
 
+static void gf_error(gf_font_t * font)
+{
+  longjmp(font->error, 1);
+}
+
 static unsigned char get_byte(gf_font_t * font)
 {
   unsigned char b;
 
   if (fread(&b, 1, 1, font->input_file) != 1) {
     fprintf(stderr, "%s: read error\n", font->input_filename);
-    exit(-1);
+    gf_error(font);
   }
   return b;
 }
@@ -158,7 +165,7 @@ static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
     fprintf(stderr, "%s: seek error\n", font->input_filename);
-    exit(-1);
+    gf_error(font);
   }
 }
 
@@ -263,14 +270,14 @@ static void get_character_bitmap(gf_char_t * sym)
       continue;                 /* do nothing */
     if (c != EOC) {
       fprintf(stderr, "%s: expected eoc (for a blank character), found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      gf_error(sym->font);
     }
     return;
   }
 
   if (width > 0xffff || height > 0xffff) {
     fprintf(stderr, "%s: character is too large\n", sym->font->input_filename);
-    exit(-1);
+    gf_error(sym->font);
   }
 
   sym->height = height;
@@ -278,7 +285,7 @@ static void get_character_bitmap(gf_char_t * sym)
   sym->bitmap = calloc(width, height);
   if (!sym->bitmap) {
     fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-    exit(-1);
+    gf_error(sym->font);
   }
 
   for (;;) {
@@ -310,7 +317,7 @@ static void get_character_bitmap(gf_char_t * sym)
           break;
         default:
           fprintf(stderr, "%s: invalid painting command %u\n", sym->font->input_filename, c);
-          exit(-1);
+          gf_error(sym->font);
         }
       }
 
@@ -353,7 +360,7 @@ static void get_character_bitmap(gf_char_t * sym)
         break;
       default:
         fprintf(stderr, "%s: invalid skip command %u\n", sym->font->input_filename, c);
-        exit(-1);
+        gf_error(sym->font);
       }
       cur_y -= rows_to_skip + 1;
       cur_x = sym->bbox_min_col;
@@ -375,7 +382,7 @@ static void get_character_bitmap(gf_char_t * sym)
 
     } else {
       fprintf(stderr, "%s: expected paint or skip or new_row, found %u\n", sym->font->input_filename, c);
-      exit(-1);
+      gf_error(sym->font);
     }
   }
 }
@@ -458,7 +465,7 @@ static void deblank(gf_char_t * sym)
       condensed.bitmap = calloc(condensed.width, condensed.height);
       if (!condensed.bitmap) {
         fprintf(stderr, "%s: out of memory\n", sym->font->input_filename);
-        exit(-1);
+        gf_error(sym->font);
       }
       for (r = 0; r < condensed.height; r++)
         for (c = 0; c < condensed.width; c++) {
@@ -648,19 +655,24 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
   return 1;
 }
 
-at_bitmap
-input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func, void *msg_data, void *user_data)
+/*
+ * Read character CHARCODE (the first one if it is zero) from a font
+ * file.  The caller closes the file and frees the character's bitmap.
+ */
+static int gf_load(gf_font_t * font, gf_char_t * sym, char *filename, unsigned charcode, at_exception_type * exp)
 {
-  at_exception_type exp = at_exception_new(msg_func, msg_data);
-  at_bitmap bitmap = at_bitmap_init(NULL, 0, 0, 0);
-  gf_font_t fontdata, *font = &fontdata;
-  gf_char_t chardata, *sym = &chardata;
-  unsigned int i, j, ptr;
-  unsigned charcode = opts->charcode;
+  unsigned int i;
+
+  font->input_file = NULL;
+  sym->bitmap = NULL;
+  if (setjmp(font->error)) {
+    at_exception_fatal(exp, "Damaged GF file");
+    return 0;
+  }
 
   if (!gf_open(font, filename)) {
-    at_exception_fatal(&exp, "Cannot open input GF file");
-    return bitmap;
+    at_exception_fatal(exp, "Cannot open input GF file");
+    return 0;
   }
   if (charcode == 0) {
     /* Find a first character in font file. */
@@ -668,19 +680,36 @@ input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func,
       if (font->char_loc[i].char_pointer != -1)
         break;
     if (i >= 256) {
-      at_exception_fatal(&exp, "No characters in input GF file");
-      return bitmap;
+      at_exception_fatal(exp, "No characters in input GF file");
+      return 0;
     }
     charcode = i;
   }
   if (!gf_get_char(font, sym, (unsigned char)charcode)) {
-    fclose(font->input_file);
-    at_exception_fatal(&exp, "Error reading character from GF file");
+    at_exception_fatal(exp, "Error reading character from GF file");
+    return 0;
+  }
+  ugs_charcode = charcode;
+  return 1;
+}
+
+at_bitmap
+input_gf_reader(char *filename, at_input_opts_type *opts, at_msg_func msg_func, void *msg_data, void *user_data)
+{
+  at_exception_type exp = at_exception_new(msg_func, msg_data);
+  at_bitmap bitmap = at_bitmap_init(NULL, 0, 0, 0);
+  gf_font_t fontdata, *font = &fontdata;
+  gf_char_t chardata, *sym = &chardata;
+  unsigned int i, j, ptr;
+
+  if (!gf_load(font, sym, filename, opts->charcode, &exp)) {
+    if (font->input_file)
+      fclose(font->input_file);
+    free(sym->bitmap);
     return bitmap;
   }
 
   ugs_design_pixels = font->design_size * font->v_pixels_per_point + 0.5;
-  ugs_charcode = charcode;
   ugs_advance_width = sym->h_escapement;
   ugs_left_bearing = sym->bbox_min_col;
   ugs_descend = sym->bbox_min_row;
-- 
2.43.0


From 34f5f950af78bf0c8e3f430aac8b181f0d07b08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:59 +0000
Subject: [PATCH 38/99] fix: look up input formats for file names without a
 suffix

---
 src/input.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/input.cpp b/src/input.cpp
index af0ac19..85742c3 100644
--- a/src/input.cpp
+++ b/src/input.cpp
@@ -68,9 +68,10 @@ int at_input_add_handler_full(const char *suffix, const char *description, at_in
 
 at_bitmap_reader *at_input_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_input_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From 553df956325ff4625a88e1a2dca450cf9006fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:28:59 +0000
Subject: [PATCH 39/99] fix: look up output formats for file names without a
 suffix

---
 src/output.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output.cpp b/src/output.cpp
index 76435ae..9ca21a8 100644
--- a/src/output.cpp
+++ b/src/output.cpp
@@ -66,9 +66,10 @@ int at_output_add_handler(const char *suffix, const char *description, at_output
 
 at_spline_writer *at_output_get_handler(char *filename) {
   char *dot_pos = strrchr(filename, '.');
-  dot_pos++;
   if (dot_pos == nullptr)
     dot_pos = const_cast<char *>("");
+  else
+    dot_pos++;
 
   return at_output_get_handler_by_suffix(dot_pos);
 }
-- 
2.43.0


From d641134b64b3d09352cf194415d80b5892bb013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:41:06 +0000
Subject: [PATCH 40/99] fix: stop the tangent search where an outline turns
 back on itself

---
 src/fit.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fit.c b/src/fit.c
index 6b9f36a..a167f4a 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -1194,6 +1194,13 @@ static void find_tangent(curve_type curve, bool to_start_point, bool cross_curve
         LOG("(adjacent curve half tangent (%.3f,%.3f,%.3f)) ", tangent2.dx, tangent2.dy, tangent2.dz);
         tangent = Vadd(tangent, tangent2);
       }
+
+      /* The two halves can cancel out at every distance, namely where the
+         outline turns back on itself.  Then use our own half.  */
+      if (tangent_surround <= 1 && tangent.dx == 0.0 && tangent.dy == 0.0) {
+        tangent = find_half_tangent(curve, to_start_point, &n_points, 1);
+        break;
+      }
       tangent_surround--;
 
     }
-- 
2.43.0


From e5c969922a8bad89fc49feedaadb2ba2fff9b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:31 +0000
Subject: [PATCH 41/99] fix: subdivide a curve only at one of its inner points

---
 src/fit.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fit.c b/src/fit.c
index a167f4a..c72678b 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -971,8 +971,12 @@ static spline_list_type *fit_with_least_squares(curve_type curve, fitting_opts_t
     NEXT_CURVE(curve) = left_curve;
 
     LOG("\nSubdividing (error %.3f):\n", error);
-    LOG("  Original point: (%.3f,%.3f), #%u.\n", CURVE_POINT(curve, worst_point).x, CURVE_POINT(curve, worst_point).y, worst_point);
+    LOG("  Original point: #%u.\n", worst_point);
     subdivision_index = worst_point;
+    /* There is no worst point if every point fits perfectly, and
+       splitting at an end point would leave us with the same curve.  */
+    if (subdivision_index == 0 || subdivision_index >= CURVE_LENGTH(curve) - 1)
+      subdivision_index = CURVE_LENGTH(curve) / 2;
     LOG("  Final point: (%.3f,%.3f), #%u.\n", CURVE_POINT(curve, subdivision_index).x, CURVE_POINT(curve, subdivision_index).y, subdivision_index);
 
     /* The last point of the left-hand curve will also be the first
-- 
2.43.0


From e0adf7fe802673f2cb47d1f29976be2da79e9bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:48 +0000
Subject: [PATCH 42/99] fix: do not read beyond the bitmap while following
 centre lines

---
 src/pxl-outline.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 2482b10..a89e81b 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -218,12 +218,13 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_color c;
 
-  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0))
-	return false;	// Must not call at_bitmap_get_color() with negative row or col.
+  if ((COMPUTE_DELTA(ROW, dir) + row < 0) || (COMPUTE_DELTA(COL, dir) + col < 0)
+      || !AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col))
+	return false;	// Must not call at_bitmap_get_color() outside of the bitmap.
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0 && AT_BITMAP_VALID_PIXEL(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col)
+                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From 17ebec9a6abb35e5cc6e7b023496e439d7b99bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:48 +0000
Subject: [PATCH 43/99] fix: follow centre lines in the first row and column
 too

---
 src/pxl-outline.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index a89e81b..5357f83 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -224,7 +224,6 @@ bool is_valid_dir(unsigned short row, unsigned short col, direction_type dir, at
 
   at_bitmap_get_color(bitmap, COMPUTE_DELTA(ROW, dir) + row, COMPUTE_DELTA(COL, dir) + col, &c);
   return ((bool) (!is_marked_dir(row, col, dir, marked)
-                  && COMPUTE_DELTA(ROW, dir) + row > 0 && COMPUTE_DELTA(COL, dir) + col > 0
                   && at_bitmap_equal_color(bitmap, row, col, &c)));
 }
 
-- 
2.43.0


From b6ccba7d44a6a310ac76f7f889ad01dc190bba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:27 +0000
Subject: [PATCH 44/99] fix: despeckle pictures longer than 32767 pixels

---
 src/despeckle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/despeckle.c b/src/despeckle.c
index f726f7b..d59da60 100644
--- a/src/despeckle.c
+++ b/src/despeckle.c
@@ -681,7 +681,7 @@ void despeckle( /* in/out */ at_bitmap * bitmap,
                /* exception handling */ at_exception_type * excep)
 {
   int i, planes, max_level;
-  short width, height;
+  int width, height;
   unsigned char *bits;
   double noise_max, adaptive_tightness;
 
-- 
2.43.0


From 49b2f6e9de196a5413d201ff716081d927b9c458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:27 +0000
Subject: [PATCH 45/99] fix: do not give up the colour nearest to the
 background when reducing colours

---
 src/median.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/median.c b/src/median.c
index 1abf911..ac2bfa7 100644
--- a/src/median.c
+++ b/src/median.c
@@ -841,7 +841,7 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
   if (iQuant) {
     if (*iQuant == NULL) {
       quantobj = initialize_median_cut(ncolors);
-      median_cut_pass1_rgb(quantobj, image, bgColor);
+      median_cut_pass1_rgb(quantobj, image, NULL);
       *iQuant = quantobj;
     } else
       quantobj = *iQuant;
-- 
2.43.0


From b058ff77958a818d584d76073ba65de93a2b4b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:42:27 +0000
Subject: [PATCH 46/99] fix: thin against white again after a call with another
 background

---
 src/thin-image.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thin-image.c b/src/thin-image.c
index 2e220ec..0344581 100644
--- a/src/thin-image.c
+++ b/src/thin-image.c
@@ -114,6 +114,8 @@ void thin_image(at_bitmap * image, const at_color * bg, at_exception_type * exp)
 
   if (bg)
     background = *bg;
+  else
+    background.r = background.g = background.b = 0xff;
 
   bm.height = image->height;
   bm.width = image->width;
-- 
2.43.0


From c793a4e68b3d871bf3dfa8ec11c1df228a494207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:42 +0000
Subject: [PATCH 47/99] fix: start every ILDA file with an empty drawing

The drawn frame was kept from one file to the next, so a second ILDA file
written by the same process came out empty. The points were never freed.
---
 src/output-ild.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/output-ild.c b/src/output-ild.c
index de5c28e..7a2f8dd 100644
--- a/src/output-ild.c
+++ b/src/output-ild.c
@@ -951,6 +951,26 @@ void drawCubicBezier(double x1, double y1, double cx1, double cy1, double cx2, d
 
 }
 
+/** free the drawn sequence and forget it, so that the next file starts afresh */
+static void freeDrawSequence(void)
+{
+  LaserFrame *f = drawsequence->frame_first, *fn;
+  LaserPoint *p, *pn;
+
+  for (; f; f = fn) {
+    for (p = f->point_first; p; p = pn) {
+      pn = p->next;
+      free(p);
+    }
+    fn = f->next;
+    free(f);
+  }
+  free(drawsequence);
+  drawsequence = NULL;
+  drawframe = NULL;
+  inserted_anchor_points = 0;
+}
+
 /* Parses the spline data and writes out ILDA (*.ILD) formatted file */
 static void OutputILDA(FILE * fdes, int llx, int lly, int urx, int ury, spline_list_array_type shape)
 {
@@ -1030,8 +1050,10 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   /* Output ILDA */
   OutputILDA(file, llx, lly, urx, ury, shape);
 
-  if (file == stdout)
+  if (file == stdout) {
+    freeDrawSequence();
     return 0;
+  }
 
   printf("Wrote %d frame with %d points (%d anchors", sequence_frame_count(drawsequence), frame_point_count(drawframe), inserted_anchor_points);
   if (trueColorWrite)
@@ -1039,5 +1061,6 @@ int output_ild_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   if (writeTable)
     printf(", Color Table");
   printf(").\n");
+  freeDrawSequence();
   return 0;
 }
-- 
2.43.0


From 93bfff6926f796f26c7969f3cddc5c7c4dcef341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:42 +0000
Subject: [PATCH 48/99] fix: reset the colour table and bounding boxes for
 every FIG file

Colours and depths of an earlier file carried over into the next one
written by the same process.
---
 src/output-fig.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/output-fig.c b/src/output-fig.c
index 38d777d..7bff3a1 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -369,6 +369,9 @@ static void fig_col_init(void)
 {
   int i;
 
+  LAST_FIG_COLOUR = 32;
+  glo_bbox_flag = loc_bbox_flag = 0;
+
   for (i = 0; i < 544; i++) {
     fig_hash[i].colour = 0;
     fig_colour_map[i].alternate = 0;
-- 
2.43.0


From 81725079f4789432a71ac73b385077defce597c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:08 +0000
Subject: [PATCH 49/99] fix: write no stray path end into an SVG file without
 curves

---
 src/output-svg.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/output-svg.c b/src/output-svg.c
index f1d7780..857a112 100644
--- a/src/output-svg.c
+++ b/src/output-svg.c
@@ -58,10 +58,11 @@ static void out_splines(FILE * file, spline_list_array_type shape, int height)
       last_color = list.color;
     }
   }
-  if (!(shape.centerline || list.open))
-    fputs("z", file);
-  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0)
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (!(shape.centerline || list.open))
+      fputs("z", file);
     fputs("\"/>\n", file);
+  }
 }
 
 int output_svg_writer(FILE * file, char * name, int llx, int lly, int urx, int ury, at_output_opts_type * opts, spline_list_array_type shape, at_msg_func msg_func, void * msg_data, void * user_data)
-- 
2.43.0


From 4dc50717a034c9c0a3c40edb90a3182f7975a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:15:56 +0000
Subject: [PATCH 50/99] fix: delete no objects in an EMF file without curves

The handles were uninitialised there.
---
 src/output-emf.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 8cc13ee..0c69318 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -843,14 +843,16 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   }
 
   // cleanup Pen and Brush
-  if (shape.centerline) {
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline) {
+      nrecords++;
+      filesize += WriteDeleteObject(NULL, 0);
+    }
+
     nrecords++;
     filesize += WriteDeleteObject(NULL, 0);
   }
 
-  nrecords++;
-  filesize += WriteDeleteObject(NULL, 0);
-
   // emf stats :: header + footer
   nrecords += 2;
   filesize += WriteEndOfMetafile(NULL) + WriteHeader(NULL, name, 0, 0, 0, 0, 0);
@@ -962,9 +964,11 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
   }
 
   //cleanup DC
-  if (shape.centerline)
-    WriteDeleteObject(fdes, MK_PEN(last_index));
-  WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  if (SPLINE_LIST_ARRAY_LENGTH(shape) > 0) {
+    if (shape.centerline)
+      WriteDeleteObject(fdes, MK_PEN(last_index));
+    WriteDeleteObject(fdes, MK_BRUSH(last_index));
+  }
 
   //output EndOfMetafile
   WriteEndOfMetafile(fdes);
-- 
2.43.0


From f5bbab68a0e4dcf6feb32acf85c1cb9ff71d6e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 51/99] fix: give every MIF object its own colour

All objects got the colour of the last one.
---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index 76f4d43..eff9381 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -157,6 +157,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
+    curr_color = (list.clockwise && shape.background_color != NULL) ? *(shape.background_color) : list.color;
 
     for (i = 0; i < n_ctbl; i++)
       if (at_color_equal(&curr_color, &col_tbl[i].c))
-- 
2.43.0


From cc6717e5614a00ee219c785aa304aa7dadc85098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 52/99] fix: allow more than 256 colours in MIF output

The colour table was overrun. The names in it were never freed.
---
 src/output-mif.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/output-mif.c b/src/output-mif.c
index eff9381..c5df83d 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -107,10 +107,12 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
 {
   unsigned this_list;
   int i;
-  ColorT col_tbl[256];
+  ColorT *col_tbl;
   int n_ctbl = 0;
   at_color curr_color = { 0, 0, 0 };
 
+  XMALLOC(col_tbl, sizeof(ColorT) * (SPLINE_LIST_ARRAY_LENGTH(shape) + 1));
+
   cbox.llx = llx;
   cbox.lly = lly;
   cbox.urx = urx;
@@ -186,5 +188,8 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
     fprintf(ps_file, " >\n");
   }
   fprintf(ps_file, ">\n");
+  for (i = 0; i < n_ctbl; i++)
+    free(col_tbl[i].tag);
+  free(col_tbl);
   return 0;
 }
-- 
2.43.0


From 0291a0cd70e0d72999f5547c983cab5f28ac1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 53/99] fix: write the end points of curves in MIF output

---
 src/output-mif.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-mif.c b/src/output-mif.c
index c5df83d..bd25c40 100644
--- a/src/output-mif.c
+++ b/src/output-mif.c
@@ -182,6 +182,7 @@ int output_mif_writer(FILE *ps_file, char *name, int llx, int lly, int urx, int
         for (temp = dt; fabs(temp - (float) 1.0) > dt; temp += dt) {
           print_coord(ps_file, bezpnt(temp, START_POINT(s).x, CONTROL1(s).x, CONTROL2(s).x, END_POINT(s).x), bezpnt(temp, START_POINT(s).y, CONTROL1(s).y, CONTROL2(s).y, END_POINT(s).y));
         }
+        print_coord(ps_file, END_POINT(s).x, END_POINT(s).y);
       }
     }
     fprintf(ps_file, "  <Smoothed %s>\n", smooth ? "Yes" : "No");
-- 
2.43.0


From 701fa40517910842af6949523f694ea1606814d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:26:00 +0000
Subject: [PATCH 54/99] fix: do not overrun the FIG colour table

The 512 user colours of the format were exceeded, and colours were still
entered after reporting that there are too many.
---
 src/output-fig.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index 7bff3a1..ec80b80 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -437,16 +437,16 @@ static int get_fig_colour(at_color this_colour, at_exception_type * exp)
   }
 
   if (fig_hash[hash].colour == 0) {
+    if (LAST_FIG_COLOUR > MAX_FIG_COLOUR) {
+      LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
+      at_exception_fatal(exp, "Output-Fig: too many colours");
+      return 0;
+    }
     fig_hash[hash].colour = LAST_FIG_COLOUR;
     fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
     fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
     fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
     LAST_FIG_COLOUR++;
-    if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
-      LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
-      at_exception_fatal(exp, "Output-Fig: too many colours");
-      return 0;
-    }
     return (fig_hash[hash].colour);
   } else {
     i = 0;
@@ -458,16 +458,16 @@ figcolloop:
     }
     /* If next colour zero - set it, return */
     if (fig_colour_map[this_ind].alternate == 0) {
+      if (LAST_FIG_COLOUR > MAX_FIG_COLOUR) {
+        LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
+        at_exception_fatal(exp, "Output-Fig: too many colours");
+        return 0;
+      }
       fig_colour_map[this_ind].alternate = LAST_FIG_COLOUR;
       fig_colour_map[LAST_FIG_COLOUR].c.r = this_colour.r;
       fig_colour_map[LAST_FIG_COLOUR].c.g = this_colour.g;
       fig_colour_map[LAST_FIG_COLOUR].c.b = this_colour.b;
       LAST_FIG_COLOUR++;
-      if (LAST_FIG_COLOUR >= MAX_FIG_COLOUR) {
-        LOG("Output-Fig: too many colours: %d", LAST_FIG_COLOUR);
-        at_exception_fatal(exp, "Output-Fig: too many colours");
-        return 0;
-      }
       return (fig_colour_map[this_ind].alternate);
     }
     /* Else get next colour */
-- 
2.43.0


From 46db972d5c02c187aa1dc4cd39292251e08af366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:34 +0000
Subject: [PATCH 55/99] fix: free the array of curve lists with the curves

---
 src/spline.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spline.c b/src/spline.c
index 191caa3..cfb2c00 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -147,6 +147,7 @@ void free_spline_list_array(spline_list_array_type * spline_list_array)
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(*spline_list_array); this_list++)
     free_spline_list(SPLINE_LIST_ARRAY_ELT(*spline_list_array, this_list));
 
+  free(SPLINE_LIST_ARRAY_DATA(*spline_list_array));
 }
 
 /* Append the spline S to the list SPLINE_LIST_ARRAY.  */
-- 
2.43.0


From 494342243797cf492764bd6f6734d0b5d8feb546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:34 +0000
Subject: [PATCH 56/99] fix: free the outlines when tracing is cancelled before
 fitting

---
 src/autotrace.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/autotrace.c b/src/autotrace.c
index f91a18f..0ce60e9 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -247,7 +247,6 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
 #define FATALP  (at_exception_got_fatal(&exp))
 #define FREE_SPLINE() do {if (splines) {at_splines_free(splines); splines = NULL;}} while(0)
 
-#define CANCEL_THEN_CLEANUP_DIST() if (CANCELP) goto cleanup_dist;
 #define CANCEL_THEN_CLEANUP_PIXELS() if (CANCELP) {FREE_SPLINE(); goto cleanup_pixels;}
 
 #define FATAL_THEN_RETURN() if (FATALP) return splines;
@@ -294,7 +293,7 @@ at_splines_new_full(at_bitmap *bitmap, at_fitting_opts_type *opts, at_msg_func m
   } else
     pixels = find_outline_pixels(bitmap, opts->background_color, notify_progress, progress_data, test_cancel, testcancel_data, &exp);
   FATAL_THEN_CLEANUP_DIST();
-  CANCEL_THEN_CLEANUP_DIST();
+  CANCEL_THEN_CLEANUP_PIXELS();
 
   XMALLOC(splines, sizeof(at_splines_type));
   *splines = fitted_splines(pixels, opts, dist, image_header.width, image_header.height, &exp, notify_progress, progress_data, test_cancel, testcancel_data);
@@ -313,7 +312,6 @@ cleanup_dist:
 #undef CANCELP
 #undef FATALP
 #undef FREE_SPLINE
-#undef CANCEL_THEN_CLEANUP_DIST
 #undef CANCEL_THEN_CLEANUP_PIXELS
 
 #undef FATAL_THEN_RETURN
-- 
2.43.0


From a4f5e1d09ae0f03f086dc4e3be6b94846d699b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:29:52 +0000
Subject: [PATCH 57/99] fix: do not let reported progress go back between
 phases

The phases started at 0.333 and 0.666, below what the end of the previous
phase reports for large pictures.
---
 src/curve.c | 2 +-
 src/fit.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve.c b/src/curve.c
index 7828c6a..2f3b131 100644
--- a/src/curve.c
+++ b/src/curve.c
@@ -224,7 +224,7 @@ void free_curve_list_array(curve_list_array_type *curve_list_array, at_progress_
 
   for (this_list = 0; this_list < CURVE_LIST_ARRAY_LENGTH(*curve_list_array); this_list++) {
     if (notify_progress)
-      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) 0.666,
+      notify_progress(((float) this_list) / (CURVE_LIST_ARRAY_LENGTH(*curve_list_array) * (float) 3.0) + (float) (2.0 / 3.0),
                       client_data);
     free_curve_list(&CURVE_LIST_ARRAY_ELT(*curve_list_array, this_list));
   }
diff --git a/src/fit.c b/src/fit.c
index c72678b..dd05daa 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -141,7 +141,7 @@ spline_list_array_type fitted_splines(pixel_outline_list_type pixel_outline_list
     curve_list_type curves = CURVE_LIST_ARRAY_ELT(curve_array, this_list);
 
     if (notify_progress)
-      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) 0.333), progress_data);
+      notify_progress((((float) this_list) / ((float) CURVE_LIST_ARRAY_LENGTH(curve_array) * (float) 3.0) + (float) (1.0 / 3.0)), progress_data);
     if (test_cancel && test_cancel(testcancel_data))
       goto cleanup;
 
-- 
2.43.0


From 3da0b537e76b45b1ade7cdc08a0de6430726e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:32:22 +0000
Subject: [PATCH 58/99] fix: use the documented defaults for corner surround
 and smoothing

The help text, manual page, header and C++ wrapper all state 4 for both.
---
 src/fit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index dd05daa..903acc3 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -92,10 +92,10 @@ fitting_opts_type new_fitting_opts(void)
   fitting_opts.charcode = 0;
   fitting_opts.color_count = 0;
   fitting_opts.corner_always_threshold = (float) 60.0;
-  fitting_opts.corner_surround = 3;
+  fitting_opts.corner_surround = 4;
   fitting_opts.corner_threshold = (float) 100.0;
   fitting_opts.error_threshold = (float) 2.0;
-  fitting_opts.filter_iterations = 2;
+  fitting_opts.filter_iterations = 4;
   fitting_opts.line_reversion_threshold = (float) .01;
   fitting_opts.line_threshold = (float) 1.0;
   fitting_opts.remove_adjacent_corners = false;
-- 
2.43.0


From 5d28a5d300522a39e8ef839c7faa62f7b553e5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:27 +0000
Subject: [PATCH 59/99] fix: free the chunk list of DR2D output

---
 src/output-dr2d.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 2c20eb6..4fa7b60 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -635,6 +635,7 @@ int output_dr2d_writer(FILE *file, char *name, int llx, int lly, int urx, int ur
   FreeChunk(CMAPChunk);
   WriteChunks(file, ChunkList, NumSplines);
   FreeChunks(ChunkList, NumSplines);
+  free(ChunkList);
 
   return 0;
 }
-- 
2.43.0


From 9c2833c9c4c45d9ff5dee7e3c11b0a4ec10339f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:27 +0000
Subject: [PATCH 60/99] fix: start the DR2D bounding box from the flipped first
 point

---
 src/output-dr2d.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dr2d.c b/src/output-dr2d.c
index 4fa7b60..cf2e410 100644
--- a/src/output-dr2d.c
+++ b/src/output-dr2d.c
@@ -186,9 +186,9 @@ static struct Chunk *BuildBBOX(spline_list_type list, int height)
   s = SPLINE_LIST_ELT(list, 0);
 
   x1 = START_POINT(s).x;
-  y1 = START_POINT(s).y;
+  y1 = height - START_POINT(s).y;
   x2 = START_POINT(s).x;
-  y2 = START_POINT(s).y;
+  y2 = height - START_POINT(s).y;
 
   this_spline_length = SPLINE_LIST_LENGTH(list);
   for (this_spline = 0; this_spline < this_spline_length; this_spline++) {
-- 
2.43.0


From 295f4d0932a740d6cf975d74b7d565fe40f534b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:55 +0000
Subject: [PATCH 61/99] fix: keep all outlines of one colour in P2E output

A newpath before every outline discarded the earlier ones of the same
colour, which are painted together.
---
 src/output-p2e.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-p2e.c b/src/output-p2e.c
index 9ce7875..6350bc8 100644
--- a/src/output-p2e.c
+++ b/src/output-p2e.c
@@ -171,9 +171,9 @@ static void out_splines(FILE * ps_file, spline_list_array_type shape)
       OUT("%.3f %.3f %.3f %.3f %s\n", (double)c / 255.0, (double)m / 255.0, (double)y / 255.0, (double)k / 255.0, "setcmykcolor");
 #endif
       last_color = list.color;
+      OUT_LINE("newpath");
     }
 
-    OUT_LINE("newpath");
     OUT_COMMAND2(START_POINT(first).x, START_POINT(first).y, "moveto");
 
     for (this_spline = 0; this_spline < SPLINE_LIST_LENGTH(list); this_spline++) {
-- 
2.43.0


From 7900a1b282e80b0815227d46ff4abcadb58ec99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:11:33 +0000
Subject: [PATCH 62/99] fix: end open ER shapes straight when their last piece
 is a line

A line keeps the control points of the curve it replaced, which are no
part of it.
---
 src/output-er.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/output-er.c b/src/output-er.c
index 2d2eab9..c5940a5 100644
--- a/src/output-er.c
+++ b/src/output-er.c
@@ -114,8 +114,13 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
     }
 
     if (list.open || length == 1) {
-      x0 = CONTROL2(prev).x;
-      y0 = CONTROL2(prev).y;
+      if (SPLINE_DEGREE(prev) == CUBICTYPE) {
+        x0 = CONTROL2(prev).x;
+        y0 = CONTROL2(prev).y;
+      } else {
+        x0 = END_POINT(prev).x;
+        y0 = END_POINT(prev).y;
+      }
       x2 = x1 = END_POINT(prev).x;
       y2 = y1 = END_POINT(prev).y;
 
@@ -156,7 +161,7 @@ static void out_splines(FILE * er_file, spline_list_array_type shape, unsigned w
         prev = s;
       }
       if (list.open || length == 1) {
-        x0 = CONTROL2(prev).z;
+        x0 = SPLINE_DEGREE(prev) == CUBICTYPE ? CONTROL2(prev).z : END_POINT(prev).z;
         x2 = x1 = END_POINT(prev).z;
         fprintf(er_file, "\t\t\t%g, %g, %g,\n", x0 * w, x1 * w, x2 * w);
       }
-- 
2.43.0


From 2aac374b079261187dfa6f04ed323465720f6446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 63/99] fix: fill holes in FIG output with the background
 colour

Holes were always white, whatever the background colour of the picture.
---
 src/output-fig.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/output-fig.c b/src/output-fig.c
index ec80b80..74807c8 100644
--- a/src/output-fig.c
+++ b/src/output-fig.c
@@ -188,11 +188,7 @@ static void out_fig_splines(FILE * file, spline_list_array_type shape, int llx,
     XMALLOC(pointy, maxlength * sizeof(int));
     XMALLOC(contrl, maxlength * sizeof(float));
 
-    if (list.clockwise) {
-      fig_colour = FIG_WHITE;
-    } else {
-      fig_colour = spline_colours[this_list];
-    }
+    fig_colour = spline_colours[this_list];
 
     fig_spline_close = 5;
 
-- 
2.43.0


From ab9d92229df90aa2ff6db3aef999b42fc187fcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 64/99] fix: do not swap width and height in the CGM extent

The two corners of the extent are (left, bottom) and (right, top).
The bottom was given as the width and the right edge as the height.
---
 src/output-cgm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index 3f85672..c257ca4 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -161,8 +161,8 @@ int output_cgm_writer(FILE *cgm_file, char *name, int llx, int lly, int urx, int
 
   write16(cgm_file, 0x20C8);    /* vdc extend */
   write16(cgm_file, (uint16_t) llx /*0x0000 */ );
-  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) ury /*0x7FFF */ );
+  write16(cgm_file, (uint16_t) urx /*0x7FFF */ );
   write16(cgm_file, (uint16_t) lly /*0x0000 */ );
 
   write16(cgm_file, 0x0080);    /* begin picture body */
-- 
2.43.0


From 20b9cd83f3a0dfc08452a27ee3976e8006c858d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 65/99] fix: put black DXF polylines on their own layer again

The last colour was forgotten after every list.  A black list after one of
another colour was taken for unchanged and stayed on the previous layer.
---
 src/output-dxf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 6e77b03..e74c70b 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -581,11 +581,11 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
   xypnt pnt, pnt_old = { 0, 0 };
   char fin, new_layer = 0, layerstr[10];
   int i, first_seg = 1, idx;
+  at_color last_color = { 0, 0, 0 };
 
   strcpy(layerstr, "C1");
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     unsigned this_spline;
-    at_color last_color = { 0, 0, 0 };
 
     spline_list_type list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
     spline_type first = SPLINE_LIST_ELT(list, 0);
-- 
2.43.0


From 84d5d6a8fd144f51c83e37126bfc131967a861c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 66/99] fix: do not start the first DXF polyline twice

The first list wrote a polyline with a single vertex before its own one.
---
 src/output-dxf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index e74c70b..b1bb3d3 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -612,6 +612,7 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt_old.yp = lround(starty * RESOLUTION);
       }
     } else {
+      new_layer = 0;
       fprintf(dxf_file, "  0\nPOLYLINE\n  8\n%s\n  66\n1\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       fprintf(dxf_file, "  0\nVERTEX\n  8\n%s\n  10\n%f\n  20\n%f\n", layerstr, startx, starty);
       pnt_old.xp = lround(startx * RESOLUTION);
-- 
2.43.0


From edfe6c157431abbae239a803afe1d8d56a54f81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 67/99] fix: keep DXF polylines together at very short curves

A curve shorter than half a pixel was cut into no segments at all.  Its
start was lost and a new polyline began at its end.
---
 src/output-dxf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index b1bb3d3..1d6b125 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -529,6 +529,8 @@ int bspline_to_lines(xypnt_head_rec * vtx_list /*  */ ,
     total_length = get_total_length(vtx_list);
     r = (spline_resolution == 0) ? sqrt(total_length) : total_length / spline_resolution;
     number_of_segments = lround(r);
+    if (number_of_segments < 1)
+      number_of_segments = 1;
     spline_step = ((double)knot[vtx_count + spline_order - 1]) / number_of_segments;
     for (knot_index = spline_order - 1; knot_index < vtx_count; knot_index++) {
       for (i = 0; i <= vtx_count + spline_order - 2; i++)
-- 
2.43.0


From 315cec9068a1d2e02f7b1ba8e119f02da33aa943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 68/99] fix: end no polyline in a DXF file without curves

---
 src/output-dxf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index 1d6b125..aa83058 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -693,7 +693,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
     last_color = curr_color;
   }
 
-  fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
+  if (!first_seg)
+    fprintf(dxf_file, "  0\nSEQEND\n  8\n0\n");
 
 }
 
-- 
2.43.0


From 6426e8d6eeb3e75ba34af7a193ca797d608507f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:03 +0000
Subject: [PATCH 69/99] fix: fill holes in EMF output with the background
 colour

Every list is a path of its own, so a hole filled with the colour of its
region disappeared.
---
 src/output-emf.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/output-emf.c b/src/output-emf.c
index 0c69318..413e446 100644
--- a/src/output-emf.c
+++ b/src/output-emf.c
@@ -752,6 +752,14 @@ static void OutputEmf(FILE* fdes, EMFStats *stats, char* name, int width, int he
 
 */
 
+/* holes show the background */
+static uint32_t ListColor(spline_list_type * list, spline_list_array_type * shape)
+{
+  at_color c = (list->clockwise && shape->background_color != NULL) ? *(shape->background_color) : list->color;
+
+  return MAKE_COLREF(c.r, c.g, c.b);
+}
+
 static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shape)
 {
   unsigned int this_list, this_spline;
@@ -768,7 +776,7 @@ static void GetEmfStats(EMFStats *stats, char *name, spline_list_array_type shap
   // visit each spline-list
   for (this_list = 0; this_list < SPLINE_LIST_ARRAY_LENGTH(shape); this_list++) {
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    curr_color = ListColor(&curr_list, &shape);
     if (this_list == 0 || curr_color != last_color) {
       ncolorchng++;
       if (!SearchColor(color_list, curr_color)) {
@@ -894,7 +902,7 @@ static void OutputEmf(FILE *fdes, EMFStats *stats, char *name, int width, int he
     curr_list = SPLINE_LIST_ARRAY_ELT(shape, this_list);
 
     // output pen & brush selection
-    curr_color = MAKE_COLREF(curr_list.color.r, curr_list.color.g, curr_list.color.b);
+    curr_color = ListColor(&curr_list, &shape);
     if (this_list == 0 || curr_color != last_color) {
 
       color_index = ColorLookUp(curr_color, color_table, stats->ncolors);
-- 
2.43.0


From edbf70e48b16063d4c95f5d140f1fcb0a76e08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:27 +0000
Subject: [PATCH 70/99] fix: write file names longer than 254 bytes correctly
 in CGM output

Only the low byte of the length was written.
---
 src/output-cgm.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/output-cgm.c b/src/output-cgm.c
index c257ca4..d1b0f46 100644
--- a/src/output-cgm.c
+++ b/src/output-cgm.c
@@ -63,14 +63,22 @@ static bool output_beginmetafilename(FILE *fdes, const char *string)
 {
   size_t len = strlen(string);
 
-  if (len + 1 < 0x001F)
-    write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
-  else {
+  if (len > 254) {
+    /* long string: the length byte 255 is followed by the real length */
     write16(fdes, CGM_BEGINMETAFILE + 0x001F);
-    write16(fdes, (uint16_t) (len + 1));
-  }
+    write16(fdes, (uint16_t) (len + 3));
+    write8(fdes, 255);
+    write16(fdes, (uint16_t) len);
+  } else {
+    if (len + 1 < 0x001F)
+      write16(fdes, (uint16_t) (CGM_BEGINMETAFILE + len + 1));
+    else {
+      write16(fdes, CGM_BEGINMETAFILE + 0x001F);
+      write16(fdes, (uint16_t) (len + 1));
+    }
 
-  write8(fdes, (uint8_t) len);
+    write8(fdes, (uint8_t) len);
+  }
 
   while (*string != '\0') {
     write8(fdes, *string);
-- 
2.43.0


From 5c629122e54b167987c3212ca3461fd703e5a031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:27:54 +0000
Subject: [PATCH 71/99] fix: do not break DXF polylines after curves in large
 pictures

The end of a curve was multiplied in single precision but the start of the
next piece in double precision.  Both did not always round alike, and then a
new polyline was begun within the outline.
---
 src/output-dxf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output-dxf.c b/src/output-dxf.c
index aa83058..558fc4f 100644
--- a/src/output-dxf.c
+++ b/src/output-dxf.c
@@ -650,8 +650,8 @@ static void out_splines(FILE * dxf_file, spline_list_array_type shape)
         pnt.xp = lround(CONTROL2(s).x * RESOLUTION);
         pnt.yp = lround(CONTROL2(s).y * RESOLUTION);
         xypnt_add_pnt(vec, pnt);
-        pnt.xp = lround(END_POINT(s).x * RESOLUTION);
-        pnt.yp = lround(END_POINT(s).y * RESOLUTION);
+        pnt.xp = lround((double)END_POINT(s).x * RESOLUTION);
+        pnt.yp = lround((double)END_POINT(s).y * RESOLUTION);
         xypnt_add_pnt(vec, pnt);
 
         res = NULL;
-- 
2.43.0


From d40a2cde9c27e4b83e5b5ee1e4b77e2fdf61a67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 72/99] fix: give the caller its numeric locale back after
 writing

Writing a file switched the whole process to the C locale for numbers and
left it there.
---
 src/autotrace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/autotrace.c b/src/autotrace.c
index 0ce60e9..1256573 100644
--- a/src/autotrace.c
+++ b/src/autotrace.c
@@ -323,6 +323,7 @@ cleanup_dist:
 void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name, at_output_opts_type *opts,
                       at_splines_type *splines, at_msg_func msg_func, void *msg_data) {
   bool new_opts = false;
+  char *locale;
   int llx, lly, urx, ury;
   llx = 0;
   lly = 0;
@@ -337,8 +338,15 @@ void at_splines_write(at_spline_writer *writer, FILE *writeto, char *file_name,
     opts = at_output_opts_new();
   }
 
+  locale = setlocale(LC_NUMERIC, NULL);
+  if (locale)
+    locale = strdup(locale);
   setlocale(LC_NUMERIC, "C");
   (*writer->func)(writeto, file_name, llx, lly, urx, ury, opts, *splines, msg_func, msg_data, NULL);
+  if (locale) {
+    setlocale(LC_NUMERIC, locale);
+    free(locale);
+  }
   if (new_opts)
     at_output_opts_free(opts);
 }
-- 
2.43.0


From fdafa18b15fb091f7c61893fa7f3a8520b5b000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 73/99] fix: refuse colour strings with characters that are no
 hex digits

Such strings gave an arbitrary colour.  The messages went to standard
output, in the middle of a file written there; a colour that cannot be
parsed is reported by returning no colour.
---
 src/color.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/color.c b/src/color.c
index 2fb539d..ef88539 100644
--- a/src/color.c
+++ b/src/color.c
@@ -47,17 +47,15 @@ at_color *at_color_new(unsigned char r, unsigned char g, unsigned char b)
 
 at_color *at_color_parse(const char *string, struct GError **err) {
   struct GError *local_err = NULL;
-  unsigned char c[6];
+  unsigned int c[6];
   int i;
 
   if (!string)
     return NULL;
   else if (string[0] == '\0')
     return NULL;
-  else if (strlen(string) != 6) {
-    printf("color string is too short: %s", string);
+  else if (strlen(string) != 6)
     return NULL;
-  }
 
   for (i = 0; i < 6; i++) {
     c[i] = hctoi(string[i], &local_err);
@@ -67,6 +65,8 @@ at_color *at_color_parse(const char *string, struct GError **err) {
       }
       return NULL;
     }
+    if (c[i] == (unsigned int)-1)
+      return NULL;
   }
   return at_color_new((unsigned char)(16 * c[0] + c[1]), (unsigned char)(16 * c[2] + c[3]), (unsigned char)(16 * c[4] + c[5]));
 }
@@ -150,8 +150,6 @@ static unsigned int hctoi(char c, struct GError **err)
     return (15);
   else if (c == 'F')
     return (15);
-  else {
-    printf("wrong char in color string: %c", c);
+  else
     return (unsigned int)-1;
-  }
 }
-- 
2.43.0


From f2302a4f9b938906024821aed196f6cf71a58f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 74/99] fix: report a background colour that cannot be parsed

The tool went on without any background colour.
---
 src/main.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.c b/src/main.c
index 811d213..311a797 100644
--- a/src/main.c
+++ b/src/main.c
@@ -311,6 +311,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
 
     if (ARGUMENT_IS("background-color")) {
       fitting_opts->background_color = at_color_parse(optarg, NULL);
+      if (fitting_opts->background_color == NULL)
+        FATAL(_("%s is not a color, six hexadecimal digits are expected"), optarg);
       input_opts->background_color = at_color_copy(fitting_opts->background_color);
     } else if (ARGUMENT_IS("centerline"))
       fitting_opts->centerline = true;
-- 
2.43.0


From cfc4d15862fb2ddb9cfe69944b6da5c39772a3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 75/99] fix: honour the preserve-width option

The option was accepted, but its name was compared with another spelling,
so it had no effect.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 311a797..78cbd05 100644
--- a/src/main.c
+++ b/src/main.c
@@ -404,7 +404,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       output_writer = at_output_get_handler_by_suffix(optarg);
       if (output_writer == NULL)
         FATAL(_("Output format %s is not supported"), optarg);
-    } else if (ARGUMENT_IS("preserve_width"))
+    } else if (ARGUMENT_IS("preserve-width"))
       fitting_opts->preserve_width = true;
 
     else if (ARGUMENT_IS("remove-adjacent-corners"))
-- 
2.43.0


From bcbb0d9e82eb6cb24e31d0ccf29865a1f8024e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 76/99] fix: let getopt store flags in ints

The flags were one byte each, so setting one cleared the flags stored
behind it.
---
 src/main.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 78cbd05..2e4efeb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -41,13 +41,16 @@ static char *output_name = (char *)"";
 static at_spline_writer *output_writer = NULL;
 
 /* Whether to print version information */
-static bool printed_version;
+static int printed_version;
 
 /* Whether to dump a bitmap file */
-static bool dumping_bitmap = false;
+static int dumping_bitmap = 0;
+
+/* Whether to write a log (--log) */
+static int log_option = 0;
 
 /* Report tracing status in real time (--report-progress) */
-static bool report_progress = false;
+static int report_progress = 0;
 #define dot_printer_max_column 50
 #define dot_printer_char '|'
 static void dot_printer(float percentage, void *client_data);
@@ -264,7 +267,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   = { {"align-threshold", 1, 0, 0},
   {"background-color", 1, 0, 0},
   {"debug-arch", 0, 0, 0},
-  {"debug-bitmap", 0, (int *)&dumping_bitmap, 1},
+  {"debug-bitmap", 0, &dumping_bitmap, 1},
   {"centerline", 0, 0, 0},
   {"charcode", 1, 0, 0},
   {"color-count", 1, 0, 0},
@@ -282,7 +285,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"line-threshold", 1, 0, 0},
   {"list-output-formats", 0, 0, 0},
   {"list-input-formats", 0, 0, 0},
-  {"log", 0, (int *)&logging, 1},
+  {"log", 0, &log_option, 1},
   {"noise-removal", 1, 0, 0},
   {"output-file", 1, 0, 0},
   {"output-format", 1, 0, 0},
@@ -291,8 +294,8 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
   {"remove-adjacent-corners", 0, 0, 0},
   {"remove-knees",    0, 0, 0 },
   {"tangent-surround", 1, 0, 0},
-  {"report-progress", 0, (int *)&report_progress, 1},
-  {"version", 0, (int *)&printed_version, 1},
+  {"report-progress", 0, &report_progress, 1},
+  {"version", 0, &printed_version, 1},
   {"width-weight-factor", 1, 0, 0},
   {0, 0, 0, 0}
   };
@@ -424,6 +427,7 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
 
     /* Else it was just a flag; getopt has already done the assignment.  */
   }
+  logging = log_option != 0;
   FINISH_COMMAND_LINE();
 }
 
-- 
2.43.0


From f655405e288de7669bcb560728b5b82cd1183b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 77/99] fix: print the whole help text

Only its first half was printed, and then two uninitialised pointers were
freed.
---
 src/main.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/main.c b/src/main.c
index 2e4efeb..ad5e0f4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -230,7 +230,8 @@ dpi <unsigned>: The dots per inch value in the input image, affects scaling\n\
   more pixels than this; default is 2.0.\n\
 filter-iterations <unsigned>: smooth the curve this many times\n\
   before fitting; default is 4.\n\
-input-format:  %s. \n\
+input-format <format>: use format <format> for the input file,\n\
+  see list-input-formats.\n\
 help: print this message.\n\
 line-reversion-threshold <real>: if a spline is closer to a straight\n\
   line than this, weighted by the square of the curve length, keep it a\n\
@@ -243,8 +244,8 @@ list-input-formats:  print a list of support input formats to stderr.\n\
 log: write detailed progress reports to <input_name>.log.\n\
 noise-removal <real>:: 0.0..1.0; default is 0.99.\n\
 output-file <filename>: write to <filename>\n\
-output-format <format>: use format <format> for the output file\n\
-  %s can be used.\n\
+output-format <format>: use format <format> for the output file,\n\
+  see list-output-formats.\n\
 preserve-width: whether to preserve line width prior to thinning.\n\
 remove-adjacent-corners: remove corners that are adjacent.\n\
 remove-knees: remove knees that are found.\n\
@@ -368,12 +369,9 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
       fitting_opts->filter_iterations = atou(optarg);
 
     else if (ARGUMENT_IS("help")) {
-      char *ishortlist, *oshortlist;
       fprintf(stderr, _("Usage: %s [options] <input_file_name>.\n"), argv[0]);
       fprintf(stderr, USAGE1);
-      /*fprintf(stderr, USAGE2, ishortlist = at_input_shortlist(), oshortlist = at_output_shortlist());*/
-      free(ishortlist);
-      free(oshortlist);
+      fprintf(stderr, USAGE2);
       fprintf(stderr, _("\nYou can get the source code of autotrace from \n%s\n"), at_home_site());
       exit(0);
     }
-- 
2.43.0


From 2f899dc078af8651484bdf2e2ec7117d2a615b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:02 +0000
Subject: [PATCH 78/99] fix: refuse color counts above the documented maximum

They overran the tables of the color reduction.
---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index ad5e0f4..c0f4c57 100644
--- a/src/main.c
+++ b/src/main.c
@@ -327,7 +327,11 @@ static char *read_command_line(int argc, char *argv[], at_fitting_opts_type * fi
     }
 
     else if (ARGUMENT_IS("color-count"))
+    {
       fitting_opts->color_count = atou(optarg);
+      if (fitting_opts->color_count > 256)
+        FATAL(_("At most 256 colors are allowed, not %u"), fitting_opts->color_count);
+    }
 
     else if (ARGUMENT_IS("corner-always-threshold"))
       fitting_opts->corner_always_threshold = (float) atof(optarg);
-- 
2.43.0


From 25621416b50b3e86363169d132c6c29f58ba04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:25 +0000
Subject: [PATCH 79/99] fix: write the log to the documented file

It went to standard output and there into the middle of the traced
output.
---
 src/logreport.c |  1 +
 src/logreport.h |  5 ++++-
 src/main.c      | 13 +++++++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/logreport.c b/src/logreport.c
index 5936c42..f96883c 100644
--- a/src/logreport.c
+++ b/src/logreport.c
@@ -7,3 +7,4 @@
 #include "logreport.h"
 
 bool logging = false;
+FILE *log_file = NULL;
diff --git a/src/logreport.h b/src/logreport.h
index 4c58f08..54c5166 100644
--- a/src/logreport.h
+++ b/src/logreport.h
@@ -19,8 +19,11 @@
 /* Whether to write a log */
 extern bool logging;
 
+/* Where to write it, standard error if NULL */
+extern FILE *log_file;
+
 #define LOG(...)								\
-  do { if (logging) fprintf (stdout, __VA_ARGS__); } while (0)
+  do { if (logging) fprintf (log_file ? log_file : stderr, __VA_ARGS__); } while (0)
 
 /* Define common sorts of messages.  */
 
diff --git a/src/main.c b/src/main.c
index c0f4c57..680503a 100644
--- a/src/main.c
+++ b/src/main.c
@@ -86,6 +86,7 @@ int main(int argc, char *argv[])
   at_output_opts_type *output_opts;
   char *input_name, *input_rootname;
   char *dumpfile_name = NULL;
+  char *log_name;
   at_splines_type *splines;
   at_bitmap *bitmap;
   FILE *output_file;
@@ -121,6 +122,18 @@ int main(int argc, char *argv[])
     free (input_rootname);
 */
 
+  if (logging) {
+    log_name = malloc(strlen(input_rootname) + strlen(".log") + 1);
+    strcpy(log_name, input_rootname);
+    strcat(log_name, ".log");
+    log_file = fopen(log_name, "w");
+    if (log_file == NULL) {
+      perror(log_name);
+      exit(errno);
+    }
+    free(log_name);
+  }
+
   /* Set input_reader if it is not set in command line args */
   if (!input_reader)
     input_reader = at_input_get_handler(input_name);
-- 
2.43.0


From 4815dfacde2e24d4ac958fef1a91706a64d3a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:25 +0000
Subject: [PATCH 80/99] fix: keep an existing output file when the input cannot
 be read

The output file was emptied before the input was looked at.
---
 src/main.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/main.c b/src/main.c
index 680503a..62444de 100644
--- a/src/main.c
+++ b/src/main.c
@@ -149,17 +149,6 @@ int main(int argc, char *argv[])
       FATAL(_("Default format %s is not supported"), DEFAULT_FORMAT);
   }
 
-  /* Open output file */
-  if (!strcmp(output_name, ""))
-    output_file = stdout;
-  else {
-    output_file = fopen(output_name, "wb");
-    if (output_file == NULL) {
-      perror(output_name);
-      exit(errno);
-    }
-  }
-
   /* Open the main input file.  */
   if (input_reader != NULL) {
     bitmap = at_bitmap_read(input_reader, input_name, input_opts, exception_handler, NULL);
@@ -197,6 +186,17 @@ int main(int argc, char *argv[])
     fclose(dump_file);
   }
 
+  /* Open output file */
+  if (!strcmp(output_name, ""))
+    output_file = stdout;
+  else {
+    output_file = fopen(output_name, "wb");
+    if (output_file == NULL) {
+      perror(output_name);
+      exit(errno);
+    }
+  }
+
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-- 
2.43.0


From f1ccce100fd2227052e18deb71c192d4d338dae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:25 +0000
Subject: [PATCH 81/99] fix: report output that cannot be written completely

A full disk gave a truncated file and a successful exit status.
---
 src/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main.c b/src/main.c
index 62444de..055cb10 100644
--- a/src/main.c
+++ b/src/main.c
@@ -200,8 +200,8 @@ int main(int argc, char *argv[])
   at_splines_write(output_writer, output_file, output_name, output_opts, splines, exception_handler, NULL);
   at_output_opts_free(output_opts);
 
-  if (output_file != stdout)
-    fclose(output_file);
+  if (ferror(output_file) || (output_file == stdout ? fflush(output_file) : fclose(output_file)) != 0)
+    FATAL(_("The output could not be written completely"));
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
-- 
2.43.0


From c6ed72e261c37cb3619c76283d464c5405837fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:14:25 +0000
Subject: [PATCH 82/99] fix: do not overwrite the input file under another name

The test for equal input and output files compared the names only.
---
 src/main.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 055cb10..33ef2b4 100644
--- a/src/main.c
+++ b/src/main.c
@@ -17,6 +17,8 @@
 #include <assert.h>
 #include <math.h>
 #include <errno.h>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 #undef N_
 #include "intl.h"
@@ -33,6 +35,9 @@ static at_bitmap_reader *input_reader = NULL;
    returns "bar.baz".  */
 static char *get_basename(char *name);
 
+/* Whether both names belong to one existing file.  */
+static bool same_file(char *name1, char *name2);
+
 /* The name of the file we're going to write.  (-output-file) */
 
 static char *output_name = (char *)"";
@@ -109,7 +114,7 @@ int main(int argc, char *argv[])
 
   input_name = read_command_line(argc, argv, fitting_opts, input_opts, output_opts);
 
-  if (output_name != NULL && input_name != NULL && 0 == strcasecmp(output_name, input_name))
+  if (output_name != NULL && input_name != NULL && (0 == strcasecmp(output_name, input_name) || same_file(output_name, input_name)))
     FATAL(_("Input and output file may not be the same\n"));
 
   if ((input_rootname = remove_suffix(get_basename(input_name))) == NULL)
@@ -460,6 +465,16 @@ static char *get_basename(char *name)
   return base ? base + 1 : name;
 }
 
+static bool same_file(char *name1, char *name2)
+{
+#ifdef WIN32
+  return false;
+#else
+  struct stat s1, s2;
+  return stat(name1, &s1) == 0 && stat(name2, &s2) == 0 && s1.st_dev == s2.st_dev && s1.st_ino == s2.st_ino;
+#endif
+}
+
 /* Convert hex char to integer */
 static void input_list_formats(FILE * file)
 {
-- 
2.43.0


From b2d021bcc6df03d3e12d8da884b6cbe3c2809372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:16:20 +0000
Subject: [PATCH 83/99] fix: write logged splines to the log

They were printed on standard output.
---
 src/spline.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spline.c b/src/spline.c
index cfb2c00..3646e03 100644
--- a/src/spline.c
+++ b/src/spline.c
@@ -18,10 +18,10 @@ void print_spline(spline_type s)
   assert(SPLINE_DEGREE(s) == LINEARTYPE || SPLINE_DEGREE(s) == CUBICTYPE);
 
   if (SPLINE_DEGREE(s) == LINEARTYPE)
-    fprintf(stdout, "(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
+    LOG("(%.3f,%.3f)--(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, END_POINT(s).x, END_POINT(s).y);
 
   else if (SPLINE_DEGREE(s) == CUBICTYPE)
-    fprintf(stdout, "(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
+    LOG("(%.3f,%.3f)..ctrls(%.3f,%.3f)&(%.3f,%.3f)..(%.3f,%.3f).\n", START_POINT(s).x, START_POINT(s).y, CONTROL1(s).x, CONTROL1(s).y, CONTROL2(s).x, CONTROL2(s).y, END_POINT(s).x, END_POINT(s).y);
 }
 
 /* Evaluate the spline S at a given T value.  This is an implementation
-- 
2.43.0


From c41436a2ce9f5b3a8b82ce61b9f917847aa806f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:06 +0000
Subject: [PATCH 84/99] fix: report unsupported centre lines in POV output to
 the caller

The library ended the whole process instead.
---
 src/output-pov.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/output-pov.c b/src/output-pov.c
index daa3ddf..7f8b15e 100644
--- a/src/output-pov.c
+++ b/src/output-pov.c
@@ -107,8 +107,12 @@ static void out_splines(FILE * pov_file, spline_list_array_type shape)
 
 int output_pov_writer(FILE *pov_file, char *name, int llx, int lly, int urx, int ury, at_output_opts_type *opts,
                       spline_list_array_type shape, at_msg_func msg_func, void *msg_data, void *user_data) {
-  if (shape.centerline == true)
-    FATAL("Povray output currently not supported for centerline method");
+  if (shape.centerline == true) {
+    at_exception_type exp = at_exception_new(msg_func, msg_data);
+    LOG("Povray output currently not supported for centerline method");
+    at_exception_fatal(&exp, "Povray output currently not supported for centerline method");
+    return -1;
+  }
 
   out_splines(pov_file, shape);
 
-- 
2.43.0


From 6f50c4825c0da6576ca501a972316f5f47ed6550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 85/99] fix: copy the background colour when wrapper options
 are assigned

Both objects shared one colour afterwards and both deleted it.
---
 src/wrapper/FittingOptions.cpp | 8 ++++++++
 src/wrapper/FittingOptions.h   | 2 +-
 src/wrapper/InputOptions.cpp   | 6 ++++++
 src/wrapper/InputOptions.h     | 2 +-
 4 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 80e41fd..5942886 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -113,6 +113,14 @@ json11::Json FittingOptions::toJson() const {
   return fittingOptionsJson;
 }
 
+FittingOptions& FittingOptions::operator=(const FittingOptions &other) {
+  const auto color = background_color;
+  _at_fitting_opts_type::operator=(other);
+  background_color = color;
+  *background_color = *other.background_color;
+  return *this;
+}
+
 FittingOptions::FittingOptions(const FittingOptions &other) : _at_fitting_opts_type(other) {
   background_color = new at_color();
   background_color->r = other.background_color->r;
diff --git a/src/wrapper/FittingOptions.h b/src/wrapper/FittingOptions.h
index fdea75b..6de740d 100644
--- a/src/wrapper/FittingOptions.h
+++ b/src/wrapper/FittingOptions.h
@@ -13,7 +13,7 @@ public:
   virtual ~FittingOptions();
 
   FittingOptions(const FittingOptions& other);
-  FittingOptions& operator=(const FittingOptions& other) = default;
+  FittingOptions& operator=(const FittingOptions& other);
 
   explicit FittingOptions(json11::Json fittingOptionsJson);
 
diff --git a/src/wrapper/InputOptions.cpp b/src/wrapper/InputOptions.cpp
index d3d245e..cca203d 100644
--- a/src/wrapper/InputOptions.cpp
+++ b/src/wrapper/InputOptions.cpp
@@ -47,6 +47,12 @@ InputOptions::~InputOptions() {
   delete background_color;
 }
 
+InputOptions& InputOptions::operator=(const InputOptions &other) {
+  *background_color = *other.background_color;
+  charcode = other.charcode;
+  return *this;
+}
+
 InputOptions::InputOptions(const InputOptions &other) : _at_input_opts_type(other) {
   background_color = new at_color();
   background_color->r = other.background_color->r;
diff --git a/src/wrapper/InputOptions.h b/src/wrapper/InputOptions.h
index 45c2abb..73c10fc 100644
--- a/src/wrapper/InputOptions.h
+++ b/src/wrapper/InputOptions.h
@@ -14,7 +14,7 @@ public:
   virtual ~InputOptions();
 
   InputOptions(const InputOptions &other);
-  InputOptions& operator=(const InputOptions& other) = default;
+  InputOptions& operator=(const InputOptions& other);
 
   explicit InputOptions(json11::Json inputOptionsJson);
 
-- 
2.43.0


From c52149b134deb7860eddf0054c8eeb9ac7e7ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 86/99] fix: do not replace the background colour object in the
 input options builder

The old object was leaked, and the new one, from malloc, was released with
delete.
---
 src/wrapper/InputOptionsBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wrapper/InputOptionsBuilder.cpp b/src/wrapper/InputOptionsBuilder.cpp
index d3ceeca..4826119 100644
--- a/src/wrapper/InputOptionsBuilder.cpp
+++ b/src/wrapper/InputOptionsBuilder.cpp
@@ -13,7 +13,7 @@ InputOptions InputOptionsBuilder::build() {
 }
 
 InputOptionsBuilder &InputOptionsBuilder::setBackgroudColor(_at_color color) {
-  inputOptions.background_color = at_color_copy(&color);
+  *inputOptions.background_color = color;
   return *this;
 }
 
-- 
2.43.0


From a149631aadcf46b37bd62423b0e3b835300d5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 87/99] fix: accept exactly the colours with components from 0
 to 255 in JSON

Colours made of 0 and 255 only, like white, were ignored, and components
outside the range were accepted.
---
 src/wrapper/Json/JsonHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Json/JsonHelper.cpp b/src/wrapper/Json/JsonHelper.cpp
index 81817c0..3566671 100644
--- a/src/wrapper/Json/JsonHelper.cpp
+++ b/src/wrapper/Json/JsonHelper.cpp
@@ -56,9 +56,9 @@ std::optional<at_color> JsonHelper::getColor(Json::object jsonObject, std::strin
       return std::nullopt;
     }
 
-    const auto colorsInRange = [](const auto colorValue){ return colorValue > 0 && colorValue < 255; };
+    const auto colorsInRange = [](const auto colorValue){ return colorValue >= 0 && colorValue <= 255; };
 
-    if(!colorsInRange(*maybeRed) && !colorsInRange(maybeGreen) && !colorsInRange(maybeBlue)) {
+    if(!colorsInRange(*maybeRed) || !colorsInRange(*maybeGreen) || !colorsInRange(*maybeBlue)) {
       return std::nullopt;
     }
 
-- 
2.43.0


From af9ba9d69347c705c3052c42eb1ddee3e17b8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 88/99] fix: keep the removal of knees in the JSON form of the
 fitting options

The option was neither written nor read.
---
 src/wrapper/FittingOptions.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/wrapper/FittingOptions.cpp b/src/wrapper/FittingOptions.cpp
index 5942886..105ed70 100644
--- a/src/wrapper/FittingOptions.cpp
+++ b/src/wrapper/FittingOptions.cpp
@@ -78,6 +78,7 @@ FittingOptions::FittingOptions(json11::Json fittingOptionsJson) : FittingOptions
   setDecimal(noise_removal, "noise_removal");
   setDecimal(width_weight_factor, "width_weight_factor");
   setBoolean(remove_adjacent_corners, "remove_adjacent_corners");
+  setBoolean(remove_knees, "remove_knees");
   setBoolean(centerline, "centerline");
   setBoolean(preserve_width, "preserve_width");
 }
@@ -107,6 +108,7 @@ json11::Json FittingOptions::toJson() const {
   fittingOptionsJson.emplace("noise_removal", noise_removal);
   fittingOptionsJson.emplace("width_weight_factor", width_weight_factor);
   fittingOptionsJson.emplace("remove_adjacent_corners", remove_adjacent_corners);
+  fittingOptionsJson.emplace("remove_knees", remove_knees);
   fittingOptionsJson.emplace("centerline", centerline);
   fittingOptionsJson.emplace("preserve_width", preserve_width);
 
-- 
2.43.0


From 334764fb779a1daeb290b4a79a7e0397703b33d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:24:44 +0000
Subject: [PATCH 89/99] fix: let the wrapper's options own their background
 colours

They kept pointers into the objects they were made from, which dangle
when those are temporaries.
---
 src/wrapper/Options.cpp | 21 +++++++++++++++++++--
 src/wrapper/Options.h   |  2 ++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wrapper/Options.cpp b/src/wrapper/Options.cpp
index 2db88e1..f807b16 100644
--- a/src/wrapper/Options.cpp
+++ b/src/wrapper/Options.cpp
@@ -4,9 +4,26 @@
 
 #include "Options.h"
 
+namespace {
+template <typename T>
+T withOwnColor(T options) {
+  options.background_color = at_color_copy(options.background_color);
+  return options;
+}
+}
+
 Options::Options(const at_fitting_opts_type &fittingOptions, const at_input_opts_type &inputOptions,
-                 const at_output_opts_type &outputOptions) : fittingOptions(fittingOptions),
-                                                             inputOptions(inputOptions),
+                 const at_output_opts_type &outputOptions) : fittingOptions(withOwnColor(fittingOptions)),
+                                                             inputOptions(withOwnColor(inputOptions)),
                                                              outputOptions(outputOptions) {
 
 }
+
+Options::Options(const Options &other) : Options(other.fittingOptions, other.inputOptions, other.outputOptions) {
+
+}
+
+Options::~Options() {
+  at_color_free(fittingOptions.background_color);
+  at_color_free(inputOptions.background_color);
+}
diff --git a/src/wrapper/Options.h b/src/wrapper/Options.h
index 688c3a1..5d3e41c 100644
--- a/src/wrapper/Options.h
+++ b/src/wrapper/Options.h
@@ -12,6 +12,8 @@ public:
   Options(const at_fitting_opts_type &fittingOptions,
           const at_input_opts_type &inputOptions,
           const at_output_opts_type &outputOptions);
+  Options(const Options &other);
+  ~Options();
 
   const at_fitting_opts_type fittingOptions;
   const at_input_opts_type inputOptions;
-- 
2.43.0


From 00142c78ebbb52d4ddfa88c70009ee77b728d874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:03 +0000
Subject: [PATCH 90/99] fix: keep an existing output file when the wrapper
 cannot read the input

The output file was emptied before the input was looked at, and it was
left open, like the bitmap, on failure.
---
 src/wrapper/autotrace.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 57c9b89..5cc389b 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -20,21 +20,24 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
     return nonstd::make_unexpected("Output writer cannot be determined for " + outputFilePath);
   }
 
-  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
-  if (outputFile == nullptr) {
-    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
-  }
-
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
                                      const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
 
     if (bitmap->bitmap == nullptr) {
+        at_bitmap_free(bitmap);
         return nonstd::make_unexpected("Unable to open file " + inputFile);
     }
 
   const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
                                            nullptr, nullptr, nullptr, nullptr, nullptr);
 
+  const auto outputFile = fopen(outputFilePath.c_str(), "wb");
+  if (outputFile == nullptr) {
+    at_splines_free(splines);
+    at_bitmap_free(bitmap);
+    return nonstd::make_unexpected("Unable to open file " + outputFilePath);
+  }
+
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
                    const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
 
-- 
2.43.0


From 9e1a811f7063f4833d2e3c6a7e7e4e39cbd98717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:03 +0000
Subject: [PATCH 91/99] fix: report failures of tracing and writing from the
 wrapper

It ignored every message of the library, crashed when there were no
curves and reported success for files that were not written.
---
 src/wrapper/autotrace.cpp | 40 +++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/wrapper/autotrace.cpp b/src/wrapper/autotrace.cpp
index 5cc389b..74a3120 100644
--- a/src/wrapper/autotrace.cpp
+++ b/src/wrapper/autotrace.cpp
@@ -9,7 +9,19 @@ Autotrace::Autotrace(const std::string &inputFile, const std::string &outputFile
   autotrace_init();
 }
 
+namespace {
+/* Keeps the first fatal message of the library. */
+void keepFatalMessage(const char *message, at_msg_type type, void *data) {
+  auto &error = *static_cast<std::string *>(data);
+  if (type == AT_MSG_FATAL && error.empty()) {
+    error = message;
+  }
+}
+}
+
 nonstd::expected<void, std::string> Autotrace::produceOutput() {
+  std::string error;
+
   const auto inputReader = at_input_get_handler(const_cast<char *>(inputFile.c_str()));
   if (inputReader == nullptr) {
     return nonstd::make_unexpected("Input reader could not be found for " + inputFile);
@@ -21,15 +33,22 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
   }
 
   const auto bitmap = at_bitmap_read(inputReader, const_cast<char *>(inputFile.c_str()),
-                                     const_cast<at_input_opts_type *>(&options.inputOptions), nullptr, nullptr);
+                                     const_cast<at_input_opts_type *>(&options.inputOptions), keepFatalMessage, &error);
 
-    if (bitmap->bitmap == nullptr) {
+    if (bitmap->bitmap == nullptr || !error.empty()) {
         at_bitmap_free(bitmap);
         return nonstd::make_unexpected("Unable to open file " + inputFile);
     }
 
-  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions), nullptr,
-                                           nullptr, nullptr, nullptr, nullptr, nullptr);
+  const auto splines = at_splines_new_full(bitmap, const_cast<at_fitting_opts_type *>(&options.fittingOptions),
+                                           keepFatalMessage, &error, nullptr, nullptr, nullptr, nullptr);
+  if (splines == nullptr || !error.empty()) {
+    if (splines != nullptr) {
+      at_splines_free(splines);
+    }
+    at_bitmap_free(bitmap);
+    return nonstd::make_unexpected("Unable to trace " + inputFile + ": " + error);
+  }
 
   const auto outputFile = fopen(outputFilePath.c_str(), "wb");
   if (outputFile == nullptr) {
@@ -39,13 +58,22 @@ nonstd::expected<void, std::string> Autotrace::produceOutput() {
   }
 
   at_splines_write(outputWriter, outputFile, const_cast<char *>(outputFilePath.c_str()),
-                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, nullptr, nullptr);
+                   const_cast<at_output_opts_type *>(&options.outputOptions), splines, keepFatalMessage, &error);
 
-  fclose(outputFile);
+  if (ferror(outputFile) && error.empty()) {
+    error = "write error";
+  }
+  if (fclose(outputFile) != 0 && error.empty()) {
+    error = "write error";
+  }
 
   at_splines_free(splines);
   at_bitmap_free(bitmap);
 
+  if (!error.empty()) {
+    return nonstd::make_unexpected("Unable to write " + outputFilePath + ": " + error);
+  }
+
   return nonstd::expected<void, std::string>();
 }
 
-- 
2.43.0


From b5277d8efa7476b8b24123b31428d3b1e3b1db8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:00 +0000
Subject: [PATCH 92/99] fix: reduce the colors of an empty bitmap to nothing

The mean color of no pixels was computed by a division by zero.  Blank
characters of a GF font are such bitmaps.
---
 src/median.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/median.c b/src/median.c
index ac2bfa7..f4c3c2e 100644
--- a/src/median.c
+++ b/src/median.c
@@ -837,6 +837,10 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
     return;
   }
 
+  /* Without pixels there are no colors to select. */
+  if (AT_BITMAP_WIDTH(image) == 0 || AT_BITMAP_HEIGHT(image) == 0)
+    return;
+
   /* If a pointer was sent in, let's use it. */
   if (iQuant) {
     if (*iQuant == NULL) {
-- 
2.43.0


From 98af590aae477feeea51d14251d1533e5a9e3cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:12:03 +0000
Subject: [PATCH 93/99] fix: do not touch the border of a distance map without
 pixels

---
 src/image-proc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/image-proc.c b/src/image-proc.c
index d57e810..8dd6bf7 100644
--- a/src/image-proc.c
+++ b/src/image-proc.c
@@ -86,7 +86,7 @@ at_distance_map new_distance_map(at_bitmap *bitmap, unsigned char target_value,
 
   /* If the image is padded then border points are all at most
      one unit away from the nearest target point. */
-  if (padded) {
+  if (padded && w > 0 && h > 0) {
     for (y = 0; y < (signed)h; y++) {
       if (dist.d[y][0] > dist.weight[y][0])
         dist.d[y][0] = dist.weight[y][0];
-- 
2.43.0


From 6f18e67e00ad6418c28e54afcb8fed058beb9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:54:08 +0000
Subject: [PATCH 94/99] fix: find centre lines in bitmaps of more than 32767
 rows or columns

The search for centre lines counted rows and columns in signed 16 bit
numbers although bitmaps have up to 65535 of them.
---
 src/pxl-outline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pxl-outline.c b/src/pxl-outline.c
index 5357f83..d0db166 100644
--- a/src/pxl-outline.c
+++ b/src/pxl-outline.c
@@ -232,7 +232,7 @@ find_centerline_pixels(at_bitmap *bitmap, at_color bg_color, at_progress_func no
                        at_testcancel_func test_cancel, void *testcancel_data, at_exception_type *exp)
 {
   pixel_outline_list_type outline_list;
-  signed short row, col;
+  unsigned short row, col;
   at_bitmap *marked = at_bitmap_new(AT_BITMAP_WIDTH(bitmap), AT_BITMAP_HEIGHT(bitmap), 1);
   unsigned int max_progress = AT_BITMAP_HEIGHT(bitmap) * AT_BITMAP_WIDTH(bitmap);
 
-- 
2.43.0


From 041b1f53f079cb0af395809e05a1a11646ce4110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:35 +0000
Subject: [PATCH 95/99] fix: do not let a huge corner window wrap around

A corner window above half the range of unsigned made the tests for outlines that are
long enough wrap around. Every pixel was then compared with billions of neighbours.
---
 src/fit.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fit.c b/src/fit.c
index 903acc3..bcc81ee 100644
--- a/src/fit.c
+++ b/src/fit.c
@@ -370,7 +370,7 @@ static curve_list_array_type split_at_corners(pixel_outline_list_type pixel_list
        corners.  We need at least `corner_surround' more pixels on
        either side of a point before it is conceivable that we might
        want another corner.  */
-    if (O_LENGTH(pixel_o) > fitting_opts->corner_surround * 2 + 2)
+    if (O_LENGTH(pixel_o) > (unsigned long long)fitting_opts->corner_surround * 2 + 2)
       corner_list = find_corners(pixel_o, fitting_opts, exception);
 
     else {
@@ -479,7 +479,7 @@ static index_list_type find_corners(pixel_outline_type pixel_outline, fitting_op
   start_p = 0;
   end_p = O_LENGTH(pixel_outline) - 1;
   if (pixel_outline.open) {
-    if (end_p <= fitting_opts->corner_surround * 2)
+    if (end_p <= (unsigned long long)fitting_opts->corner_surround * 2)
       return corner_list;
     APPEND_CORNER(0, 0.0, '@');
     start_p += fitting_opts->corner_surround;
-- 
2.43.0


From e515ad0c9322d9b02f5f6d7883226189351f1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:48:36 +0000
Subject: [PATCH 96/99] fix: refuse to reduce a bitmap to more than 256 colours

The colour map has 256 entries, as documented for the option. Only the command line
tool checked the number; callers of the library overran the map.
---
 src/median.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/median.c b/src/median.c
index f4c3c2e..2395c3a 100644
--- a/src/median.c
+++ b/src/median.c
@@ -837,6 +837,12 @@ void quantize(at_bitmap * image, long ncolors, const at_color * bgColor, Quantiz
     return;
   }
 
+  if (ncolors > MAXNUMCOLORS) {
+    LOG("quantize: %ld colors are too many", ncolors);
+    at_exception_fatal(exp, "quantize: at most 256 colors are allowed");
+    return;
+  }
+
   /* Without pixels there are no colors to select. */
   if (AT_BITMAP_WIDTH(image) == 0 || AT_BITMAP_HEIGHT(image) == 0)
     return;
-- 
2.43.0


From ea8dd6a3070111aedf507b9cb77bcb70d28e91c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:24 +0000
Subject: [PATCH 97/99] fix: read BMP core headers with sizes above 32767

The width and height of the 12 byte core header are unsigned 16-bit numbers. They were
read as signed ones, so wide pictures were refused and tall ones turned upside down.
---
 src/input-bmp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/input-bmp.c b/src/input-bmp.c
index fbb0e5a..404943d 100644
--- a/src/input-bmp.c
+++ b/src/input-bmp.c
@@ -218,8 +218,8 @@ at_bitmap input_bmp_reader(char * filename, at_input_opts_type * opts, at_msg_fu
       goto cleanup;
     }
 
-    Bitmap_Head.biWidth = ToS(&buffer[0x00]);   /* 12 */
-    Bitmap_Head.biHeight = ToS(&buffer[0x02]);  /* 14 */
+    Bitmap_Head.biWidth = (unsigned short)ToS(&buffer[0x00]);   /* 12 */
+    Bitmap_Head.biHeight = (unsigned short)ToS(&buffer[0x02]);  /* 14 */
     Bitmap_Head.biPlanes = ToS(&buffer[0x04]);  /* 16 */
     Bitmap_Head.biBitCnt = ToS(&buffer[0x06]);  /* 18 */
     Bitmap_Head.biCompr = 0;
-- 
2.43.0


From ca6e99c4e8627a447a962393d80a1d57dae9a31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:23 +0000
Subject: [PATCH 98/99] fix: read the signed numbers of GF files as signed

Boxes left of or below the origin, negative advances and the -1 of absent
characters were read as numbers near 2^32 where long has 64 bits.
---
 src/input-gf.c | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/input-gf.c b/src/input-gf.c
index 473d34a..64a8859 100644
--- a/src/input-gf.c
+++ b/src/input-gf.c
@@ -24,6 +24,7 @@
 #include "config.h"
 #endif /* Def: HAVE_CONFIG_H */
 
+#include <math.h>
 #include <setjmp.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -161,6 +162,14 @@ static unsigned long get_four(gf_font_t * font)
   return b;
 }
 
+/* The same as a two's complement number. */
+static long get_signed_four(gf_font_t * font)
+{
+  unsigned long b = get_four(font);
+
+  return b < 0x80000000UL ? (long)b : -(long)(0xFFFFFFFFUL - b) - 1;
+}
+
 static void move_relative(gf_font_t * font, long count)
 {
   if (fseek(font->input_file, count, SEEK_CUR) < 0) {
@@ -539,10 +548,10 @@ static int gf_open(gf_font_t * font, char *filename)
   font->h_pixels_per_point = get_four(font) / (double)(1L << 16);
   font->v_pixels_per_point = get_four(font) / (double)(1L << 16);
 
-  font->bbox_min_col = (signed long)get_four(font);
-  font->bbox_max_col = (signed long)get_four(font);
-  font->bbox_min_row = (signed long)get_four(font);
-  font->bbox_max_row = (signed long)get_four(font);
+  font->bbox_min_col = get_signed_four(font);
+  font->bbox_max_col = get_signed_four(font);
+  font->bbox_min_row = get_signed_four(font);
+  font->bbox_max_row = get_signed_four(font);
 
   /* We do not know in advance how many character locators exist,
    * but we do place a maximum on it (contrary to what the GF format
@@ -555,7 +564,7 @@ static int gf_open(gf_font_t * font, char *filename)
     c = get_byte(font);
 
     if (b == CHAR_LOC) {
-      font->char_loc[c].h_escapement = (double)get_four(font) / (1 << 16) + .5;
+      font->char_loc[c].h_escapement = floor((double)get_signed_four(font) / (1 << 16) + .5);
       /* Ignore vertical escapement. */
       (void)get_four(font);
 
@@ -568,7 +577,7 @@ static int gf_open(gf_font_t * font, char *filename)
     }
 
     font->char_loc[c].tfm_width = get_four(font);
-    font->char_loc[c].char_pointer = get_four(font);
+    font->char_loc[c].char_pointer = get_signed_four(font);
   }
   return 1;
 }
@@ -607,7 +616,7 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
      * this character is a ``residue'', and the font
      * is probably too big.
      */
-    lcode = (long)get_four(font);
+    lcode = get_signed_four(font);
     if (lcode < 0 || lcode > 255) {
       /* Someone is trying to use a font with character codes
        * that are out of our range. */
@@ -616,14 +625,14 @@ static int gf_get_char(gf_font_t * font, gf_char_t * sym, unsigned char charcode
     }
     sym->charcode = lcode;
 
-    back_pointer = (long)get_four(font);
+    back_pointer = get_signed_four(font);
     if (back_pointer != -1)
       fprintf(stderr, "%s: warning: character %u has a non-null back pointer (to %#lx)\n", font->input_filename, sym->charcode, back_pointer);
 
-    sym->bbox_min_col = (long)get_four(font);
-    sym->bbox_max_col = (long)get_four(font);
-    sym->bbox_min_row = (long)get_four(font);
-    sym->bbox_max_row = (long)get_four(font);
+    sym->bbox_min_col = get_signed_four(font);
+    sym->bbox_max_col = get_signed_four(font);
+    sym->bbox_min_row = get_signed_four(font);
+    sym->bbox_max_row = get_signed_four(font);
     break;
 
   case BOC1:
-- 
2.43.0


From b51cc762d48e22be5946076fb1c7841c54d5a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:32:23 +0000
Subject: [PATCH 99/99] fix: compute the right bearing in UGS output from the
 last column

---
 src/output-ugs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output-ugs.c b/src/output-ugs.c
index a477825..713fc7a 100644
--- a/src/output-ugs.c
+++ b/src/output-ugs.c
@@ -287,7 +287,7 @@ int output_ugs_writer(FILE *file, char *name, int llx, int lly, int urx, int ury
   fprintf(file, "symbol %#lx design-size %ld\n", ugs_charcode, ugs_design_pixels);
   fprintf(file, "\tadvance-width %ld\n", ugs_advance_width);
 
-  upperx = ugs_advance_width - ugs_max_col - 1;
+  upperx = ugs_max_col - 1;
   uppery = ugs_max_row;
 
   lowerx = ugs_left_bearing;
-- 
2.43.0

